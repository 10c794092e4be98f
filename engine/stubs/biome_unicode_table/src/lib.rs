//! Signature-only stand-in for the git dependency that is not available offline.
#![allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Dispatch { ERR, WHS, EXL, QOT, IDT, PRC, AMP, PNO, PNC, MUL, PLS, COM, MIN, PRD, SLH, ZER, DIG, COL, SEM, LSS, EQL, MOR, QST, AT_, L_U, BTO, BSL, BTC, CRT, TPL, BEO, PIP, BEC, TLD, UNI, HAS }
pub fn lookup_byte(_b: u8) -> Dispatch { loop {} }
