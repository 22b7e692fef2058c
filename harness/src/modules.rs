pub mod gen;
pub mod io;
pub mod kernel;
pub mod rt;
pub mod spec;

pub mod codec;
pub mod hello;
pub mod conn;
pub mod live;
pub mod agent;
pub mod misc;
pub mod trace;
