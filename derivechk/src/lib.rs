pub use pasture_core;
pub use pasture_derive;
pub use nalgebra;
pub use bytemuck;
