use crate::Prop;
pub mod arrays;
pub mod search;
pub mod ops;
pub mod stats;
pub mod compress;
pub mod arrow;
pub mod files;
pub mod footer;
pub mod ipc;
pub mod types;
pub mod query;
pub mod views;
pub mod faults;
pub mod core;
pub mod args;
pub mod make;
pub mod ratio;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(arrays::props());
    v.extend(search::props());
    v.extend(ops::props());
    v.extend(stats::props());
    v.extend(compress::props());
    v.extend(ipc::props());
    v.extend(files::props());
    v.extend(footer::props());
    v.extend(arrow::props());
    v.extend(types::props());
    v.extend(query::props());
    v.extend(views::props());
    v.extend(faults::props());
    v.extend(core::props());
    v.extend(args::props());
    v.extend(make::props());
    v.extend(ratio::props());
    v
}
