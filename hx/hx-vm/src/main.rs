mod e2e;
mod kc;
mod mc;
mod nc;
mod nd;
mod ne;
mod nf;
mod nk;
mod np;
mod sched;
fn main() {
    hx_lib::run(&[("M01", mc::m01), ("M02", mc::m02), ("M03", mc::m03), ("M04", mc::m04), ("M05", mc::m05), ("K01", kc::k01), ("K02", kc::k02), ("K03", kc::k03), ("K04", kc::k04), ("N01", nd::n01), ("N02", np::n02), ("N03", nc::n03), ("N04", ne::n04), ("N05", ne::n05), ("N06", ne::n06), ("N07", ne::n07), ("N08", ne::n08), ("N09", nf::n09), ("N10", nf::n10), ("N11", nk::n11), ("N12", nk::n12)])
}
