pub mod checks;
pub mod drivers;
pub mod explore;
pub mod hist;
pub mod io;
pub mod life;
pub mod model;
pub mod owner;
pub mod scen;
pub mod spec;
pub mod svm;
pub mod wire;
pub mod world;
