#[path = "../../hx-tls/src/model.rs"]
mod model;
mod att;
mod conf;
mod conn;
mod tlst;
mod merkle;
mod partial;
mod proof;
mod util;

fn main() {
    hx_lib::run(&[
        ("C01", partial::c01),
        ("C02", partial::c02),
        ("C03", proof::c03),
        ("C04", proof::c04),
        ("C05", conf::c05),
        ("C06", merkle::c06),
        ("C07", conn::c07),
        ("C08", tlst::c08),
        ("C09", conf::c09),
        ("A01", att::a01),
        ("A02", att::a02),
        ("A03", att::a03),
        ("A04", att::a04),
        ("A05", att::a05),
        ("A06", att::a06),
    ]);
}
