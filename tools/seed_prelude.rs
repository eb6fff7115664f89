#![allow(dead_code, unused_imports, deprecated)]
use std::collections::HashSet;
use std::io::{self, Read};
use yule_log::builder::ULogParserBuilder;
use yule_log::model::{def, inst, msg, msg::UlogMessage, CChar};
use yule_log::parser::ULogParser;
use yule_log::errors::ULogError;

/// 16-byte file header
fn hdr() -> Vec<u8> {
    let mut v = vec![0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35, 1];
    v.extend_from_slice(&0x1122_3344_5566_7788u64.to_le_bytes());
    v
}
fn m(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u16).to_le_bytes().to_vec();
    v.push(ty);
    v.extend_from_slice(body);
    v
}
fn fmt(s: &str) -> Vec<u8> { m(b'F', s.as_bytes()) }
fn sub(multi: u8, id: u16, name: &str) -> Vec<u8> {
    let mut b = vec![multi];
    b.extend_from_slice(&id.to_le_bytes());
    b.extend_from_slice(name.as_bytes());
    m(b'A', &b)
}
fn data(id: u16, body: &[u8]) -> Vec<u8> {
    let mut b = id.to_le_bytes().to_vec();
    b.extend_from_slice(body);
    m(b'D', &b)
}
fn cat(parts: &[Vec<u8>]) -> Vec<u8> { parts.concat() }
type Items = Vec<Result<UlogMessage, ULogError>>;
fn all(bytes: &[u8]) -> Items { ULogParser::new(bytes).unwrap().take(200).collect() }
fn full(bytes: &[u8]) -> Items {
    ULogParserBuilder::new(bytes).include_header(true).include_timestamp(true).include_padding(true).build().unwrap().take(200).collect()
}
fn show(items: &Items) -> Vec<String> {
    items.iter().map(|i| match i { Ok(m) => format!("{m:?}"), Err(e) => format!("ERR {e}") }).collect()
}
