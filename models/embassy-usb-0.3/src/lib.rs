//! Model of embassy-usb: only what postcard-rpc needs to obtain its two bulk endpoints from a driver.
//! Descriptors are not built; the endpoints are the driver's own, exactly as in the real crate.
#![no_std]
use core::marker::PhantomData;
use embassy_usb_driver::{Driver, EndpointType};

pub mod descriptor {
    pub mod lang_id {
        pub const ENGLISH_US: u16 = 0x0409;
    }
}
pub mod types {
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct StringIndex(pub u8);
}
pub mod msos {
    pub mod windows_version {
        pub const WIN8_1: u32 = 0x06030000;
    }
    pub struct CompatibleIdFeatureDescriptor;
    impl CompatibleIdFeatureDescriptor {
        pub fn new(_a: &str, _b: &str) -> Self {
            Self
        }
    }
    pub struct RegistryPropertyFeatureDescriptor<'a>(core::marker::PhantomData<&'a ()>);
    pub enum PropertyData<'a> {
        RegMultiSz(&'a [&'a str]),
    }
    impl<'a> RegistryPropertyFeatureDescriptor<'a> {
        pub fn new(_name: &'a str, _data: PropertyData<'a>) -> Self {
            Self(core::marker::PhantomData)
        }
    }
    pub trait DeviceLevelDescriptor {}
    impl DeviceLevelDescriptor for CompatibleIdFeatureDescriptor {}
    impl<'a> DeviceLevelDescriptor for RegistryPropertyFeatureDescriptor<'a> {}
}

pub trait Handler {
    fn get_string(&mut self, index: types::StringIndex, lang_id: u16) -> Option<&str> {
        let _ = (index, lang_id);
        None
    }
}
pub struct Config<'a>(PhantomData<&'a ()>);
impl<'a> Config<'a> {
    pub const fn new(_vid: u16, _pid: u16) -> Self {
        Self(PhantomData)
    }
}
pub struct UsbDevice<'d, D: Driver<'d>>(#[allow(dead_code)] D, PhantomData<&'d ()>);

pub struct Builder<'d, D: Driver<'d>> {
    driver: D,
    p: PhantomData<&'d ()>,
}
impl<'d, D: Driver<'d>> Builder<'d, D> {
    pub fn new(driver: D, _c: Config<'d>, _a: &'d mut [u8], _b: &'d mut [u8], _m: &'d mut [u8], _k: &'d mut [u8]) -> Self {
        Self { driver, p: PhantomData }
    }
    pub fn build(self) -> UsbDevice<'d, D> {
        UsbDevice(self.driver, PhantomData)
    }
    pub fn handler(&mut self, _h: &'d mut dyn Handler) {}
    pub fn msos_descriptor(&mut self, _v: u32, _c: u8) {}
    pub fn msos_feature<T: msos::DeviceLevelDescriptor>(&mut self, _d: T) {}
    pub fn function(&mut self, _c: u8, _s: u8, _p: u8) -> FunctionBuilder<'_, 'd, D> {
        FunctionBuilder { b: self }
    }
}
pub struct FunctionBuilder<'a, 'd, D: Driver<'d>> {
    b: &'a mut Builder<'d, D>,
}
impl<'a, 'd, D: Driver<'d>> FunctionBuilder<'a, 'd, D> {
    pub fn interface(&mut self) -> InterfaceBuilder<'_, 'd, D> {
        InterfaceBuilder { b: self.b }
    }
}
impl<'a, 'd, D: Driver<'d>> Drop for FunctionBuilder<'a, 'd, D> {
    fn drop(&mut self) {}
}
pub struct InterfaceBuilder<'a, 'd, D: Driver<'d>> {
    b: &'a mut Builder<'d, D>,
}
impl<'a, 'd, D: Driver<'d>> InterfaceBuilder<'a, 'd, D> {
    pub fn string(&mut self) -> types::StringIndex {
        types::StringIndex(4)
    }
    pub fn alt_setting(&mut self, _c: u8, _s: u8, _p: u8, _i: Option<types::StringIndex>) -> InterfaceAltBuilder<'_, 'd, D> {
        InterfaceAltBuilder { b: self.b }
    }
}
pub struct InterfaceAltBuilder<'a, 'd, D: Driver<'d>> {
    b: &'a mut Builder<'d, D>,
}
impl<'a, 'd, D: Driver<'d>> InterfaceAltBuilder<'a, 'd, D> {
    pub fn endpoint_bulk_in(&mut self, max: u16) -> D::EndpointIn {
        match self.b.driver.alloc_endpoint_in(EndpointType::Bulk, max, 0) {
            Ok(e) => e,
            Err(_) => panic!("alloc_endpoint_in failed"),
        }
    }
    pub fn endpoint_bulk_out(&mut self, max: u16) -> D::EndpointOut {
        match self.b.driver.alloc_endpoint_out(EndpointType::Bulk, max, 0) {
            Ok(e) => e,
            Err(_) => panic!("alloc_endpoint_out failed"),
        }
    }
}
