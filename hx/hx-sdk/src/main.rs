mod flt;
mod fmt;
mod hnd;
mod lim;
mod msg;
mod ses;
mod st;
fn main() {
    hx_lib::run(&[("S06", hnd::s06), ("S07", fmt::s07), ("S08", ses::s08), ("S09", st::s09), ("S10", lim::s10), ("S11", lim::s11), ("S12", flt::s12)])
}
