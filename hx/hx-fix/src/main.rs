mod cfg;
mod data;
mod http;
mod net;
mod raw;

fn main() {
    hx_lib::run(&[
        ("S01", http::s01),
        ("S02", http::s02),
        ("S03", raw::s03),
        ("S04", cfg::s04),
        ("S05", data::s05),
    ]);
}
