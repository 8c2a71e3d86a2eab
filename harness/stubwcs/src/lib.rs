pub mod error { #[derive(Debug,PartialEq)] pub struct Error; impl std::fmt::Display for Error{fn fmt(&self,f:&mut std::fmt::Formatter<'_>)->std::fmt::Result{f.write_str("wcs")}} impl std::error::Error for Error{} }
#[derive(Debug,serde::Deserialize)] pub struct WCSParams{}
#[derive(Debug)] pub struct WCS; impl WCS{pub fn new(_:&WCSParams)->Result<Self,error::Error>{Err(error::Error)}}
#[derive(Debug)] pub struct ImgXY; #[derive(Debug)] pub struct LonLat;
