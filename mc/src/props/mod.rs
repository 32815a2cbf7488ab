//! One module per property (or group of closely related ones).
pub mod util;
mod access;
mod building;
mod client;
mod context;
mod flow;
mod formats;
pub mod codec;
pub mod http;
mod managers;
mod policy;
mod requests;
mod serverloop;
mod sessions;
mod watch;
mod wire;
mod ws;

use crate::ctx::Ctx;

pub const MC: &str = "model_checking";
pub const FE: &str = "fault_enumeration";

#[allow(clippy::type_complexity)]
pub const ALL: &[(&str, &str, fn(&Ctx))] = &[
    ("C01", MC, serverloop::c01),
    ("C02", MC, serverloop::c02),
    ("C03", MC, serverloop::c03),
    ("C04", MC, requests::c04),
    ("C05", MC, managers::c05),
    ("C06", MC, managers::c06),
    ("C07", MC, requests::c07),
    ("C08", MC, serverloop::c08),
    ("C09", MC, requests::c09),
    ("C10", MC, client::c10),
    ("C11", MC, client::c11),
    ("C12", MC, managers::c12),
    ("C13", MC, codec::c13),
    ("C14", MC, codec::c14),
    ("C15", MC, codec::c15),
    ("C16", MC, codec::c16),
    ("C17", MC, sessions::c17),
    ("C18", MC, http::c18),
    ("C19", MC, sessions::c19),
    ("C20", MC, sessions::c20),
    ("C21", MC, flow::c21),
    ("C22", MC, flow::c22),
    ("C23", MC, policy::c23),
    ("C24", MC, policy::c24),
    ("C25", MC, access::c25),
    ("C26", MC, access::c26),
    ("C27", MC, access::c27),
    ("C28", MC, formats::c28),
    ("C29", MC, formats::c29),
    ("C30", MC, formats::c30),
    ("C31", MC, context::c31),
    ("C32", MC, ws::c32),
    ("C33", MC, wire::c33),
    ("C34", MC, context::c34),
    ("C35", FE, wire::c35),
    ("C36", MC, watch::c36),
    ("C37", MC, building::c37),
    ("C38", MC, building::c38),
];

/// Helper processes (children of a check).
pub fn child(which: &str, args: &[String]) -> i32 {
    match which {
        "child-stdio" => codec::stdio_child(args),
        "child-log" => building::log_child(args),
        _ => 2,
    }
}
