//! Derived structs and streams of every supported shape; analysed, never run.
#![allow(dead_code, private_interfaces, private_bounds)]
use yule_log::model::msg::UlogMessage;
use yule_log::model::CChar;
use yule_log::{ULogData, ULogMessages};

#[derive(ULogData)]
pub struct Inner {
    pub x: f32,
    pub y: Option<i32>,
}

#[derive(ULogData)]
pub struct VehicleLocalPosition {
    pub timestamp: u64,
    pub f_u8: u8,
    pub f_u16: u16,
    pub f_u32: u32,
}

#[derive(ULogData)]
#[yule_log(multi_id = 2)]
pub struct EscStatus2Rows {
    pub f_i64: i64,
    pub f_i32: i32,
    pub f_i16: i16,
    pub f_i8: i8,
}

#[derive(ULogData)]
#[yule_log(subscription_name = "other_scalars")]
pub struct OtherScalars {
    pub f_f32: f32,
    pub f_f64: f64,
    pub f_bool: bool,
    pub f_char: CChar,
}

#[derive(ULogData)]
pub struct UnsignedArrays {
    pub v_u8: Vec<u8>,
    pub v_u16: Vec<u16>,
    pub v_u32: Vec<u32>,
    pub v_u64: Vec<u64>,
}

#[derive(ULogData)]
pub struct SignedArrays {
    pub v_i8: Vec<i8>,
    pub v_i16: Vec<i16>,
    pub v_i32: Vec<i32>,
    pub v_i64: Vec<i64>,
}

#[derive(ULogData)]
pub struct OtherArrays {
    pub v_f32: Vec<f32>,
    pub v_f64: Vec<f64>,
    pub v_bool: Vec<bool>,
    pub v_char: Vec<CChar>,
}

/// overrides, raw identifiers, optional members
#[derive(ULogData)]
#[yule_log(subscription_name = "shape_log", multi_id = 3)]
pub struct Shapes {
    #[yule_log(field_name = "renamed_in_log")]
    pub renamed: u32,
    pub r#type: u8,
    pub opt: Option<f32>,
    #[yule_log(field_name = "opt_in_log")]
    pub opt_renamed: Option<u16>,
    pub opt_floats: Option<Vec<f64>>,
    pub opt_flag: std::option::Option<bool>,
}

/// names in the log that are those of other members
#[derive(ULogData)]
pub struct Swapped {
    #[yule_log(field_name = "second")]
    pub first: u16,
    #[yule_log(field_name = "first")]
    pub second: u16,
    #[yule_log(field_name = "Third Field")]
    pub third: Option<u16>,
}

#[derive(ULogData)]
pub struct Nested {
    pub one: Inner,
    pub opt_one: Option<Inner>,
    pub many: Vec<Inner>,
    pub opt_many: Option<Vec<Inner>>,
}

#[derive(ULogData)]
pub struct AllOptional {
    pub a: Option<u8>,
    pub b: Option<u8>,
    pub c: Option<CChar>,
}

#[derive(ULogData)]
#[yule_log(subscription_name = "pair_log", multi_id = 0)]
pub struct First {
    pub a: u8,
    pub b: u8,
}

#[derive(ULogData)]
#[yule_log(subscription_name = "pair_log", multi_id = 1)]
pub struct Second {
    pub b: u8,
    pub a: u8,
}

#[derive(ULogMessages)]
pub enum Forwarding {
    Position(VehicleLocalPosition),
    One(First),
    Two(Second),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
    Shapes(Shapes),
}

#[derive(ULogMessages)]
pub enum Plain {
    One(First),
    Rows(EscStatus2Rows),
    Shapes(Shapes),
    Two(Second),
}

#[derive(ULogMessages)]
pub enum Others {
    #[yule_log(forward_other)]
    Unmapped(UlogMessage),
    A(OtherScalars),
    B(UnsignedArrays),
    C(SignedArrays),
    D(OtherArrays),
    E(Swapped),
    F(Nested),
    G(AllOptional),
}

// ---- how the derived streams and builders are used
/// a concrete reader: nothing is ever read
pub struct Source;
impl std::io::Read for Source {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
type Items<T> = Result<T, yule_log::errors::ULogError>;

pub fn plain_of_forwarding(r: Source) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::stream(r)
}
pub fn plain_of_plain(r: Source) -> Items<impl Iterator<Item = Items<Plain>>> {
    Plain::stream(r)
}
pub fn plain_of_others(r: Source) -> Items<impl Iterator<Item = Items<Others>>> {
    Others::stream(r)
}
pub fn built_of_forwarding(r: Source) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).stream()
}
pub fn built_of_plain(r: Source) -> Items<impl Iterator<Item = Items<Plain>>> {
    Plain::builder(r).stream()
}
pub fn added(r: Source, a: String) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).add_subscription(a)?.stream()
}
pub fn added_twice(r: Source, a: String, b: &str) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).add_subscription(a)?.add_subscription(b)?.stream()
}
pub fn extended(r: Source, v: Vec<String>) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).extend_subscriptions(v)?.stream()
}
pub fn extended_then_added(r: Source, v: Vec<String>, a: String) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).extend_subscriptions(v)?.add_subscription(a)?.stream()
}
pub fn all_options(r: Source, a: String, v: Vec<String>, on: bool) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).add_subscription(a)?.extend_subscriptions(v)?.forward_subscriptions(on)?.stream()
}
pub fn options_reversed(r: Source, a: String, v: Vec<String>, on: bool) -> Items<impl Iterator<Item = Items<Others>>> {
    Others::builder(r).forward_subscriptions(on)?.extend_subscriptions(v)?.add_subscription(a)?.stream()
}
pub fn forwarded(r: Source, on: bool) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).forward_subscriptions(on)?.stream()
}
pub fn forwarded_last(r: Source, first: bool, on: bool) -> Items<impl Iterator<Item = Items<Forwarding>>> {
    Forwarding::builder(r).forward_subscriptions(first)?.forward_subscriptions(on)?.stream()
}
pub fn refused_added(r: Source, a: String) -> Items<impl Iterator<Item = Items<Plain>>> {
    Plain::builder(r).add_subscription(a)?.stream()
}
pub fn refused_extended(r: Source, v: Vec<String>) -> Items<impl Iterator<Item = Items<Plain>>> {
    Plain::builder(r).extend_subscriptions(v)?.stream()
}
pub fn refused_forwarded(r: Source, on: bool) -> Items<impl Iterator<Item = Items<Plain>>> {
    Plain::builder(r).forward_subscriptions(on)?.stream()
}
