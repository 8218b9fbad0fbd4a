pub trait ToBits {
    fn to_lsb0_vec(&self) -> Vec<bool>;
    fn iter_lsb0(&self) -> std::vec::IntoIter<bool> { self.to_lsb0_vec().into_iter() }
    fn into_iter_lsb0(self) -> std::vec::IntoIter<bool> where Self: Sized { self.to_lsb0_vec().into_iter() }
}
pub trait IntoBits {}
