pub mod audio_a;
pub mod audio_b;
pub mod cli;
pub mod fps;
pub mod media;
pub mod wide;
pub mod live;
pub mod cost;
pub mod decoded;
