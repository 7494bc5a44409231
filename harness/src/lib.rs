pub mod sx;
pub mod log;
pub mod h1;
pub mod refs;
pub mod tables;
pub mod main1;
pub mod h2;
pub mod main2;
pub mod main3;
pub mod main4;
pub mod main5;
pub mod main6;
