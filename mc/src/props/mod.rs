pub mod angles;
pub mod earth;
pub mod projs;
pub mod pipe;
pub mod geod;
pub mod crsx;
pub mod geom;
pub mod misc;
