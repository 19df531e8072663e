use crate::run::Prop;
mod cost;
mod csvs;
mod driver;
mod faults;
pub mod formats;
mod fuzz;
mod graph;
mod http;
mod inputs;
pub mod memory;
mod times;
mod tool;
mod touch;
pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(driver::props());
    v.extend(graph::props());
    v.extend(formats::props());
    v.extend(fuzz::props());
    v.extend(times::props());
    v.extend(csvs::props());
    v.extend(cost::props());
    v.extend(inputs::props());
    v.extend(memory::props());
    v.extend(faults::props());
    v.extend(http::props());
    v.extend(tool::props());
    v.extend(touch::props());
    v.sort_by_key(|p| p.id);
    v
}
