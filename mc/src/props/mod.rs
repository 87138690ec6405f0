use nttmc::cli::Check;

pub mod admin;
pub mod hooks;
pub mod iface;
pub mod inbound;
pub mod limits;
pub mod misc;
pub mod mixed;
pub mod outbound;
pub mod quoter;
pub mod ts;

/// The property's own scenarios, then the mixed exploration with its focus.
macro_rules! plus {
    ($f:path) => {
        |r| {
            $f(r);
            mixed::mixed(r);
        }
    };
}

/// Property id, its check, and what the check takes for granted.
pub fn all() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", plus!(outbound::c01)),
        ("C02", plus!(outbound::c02)),
        ("C03", plus!(inbound::c03)),
        ("C04", plus!(inbound::c04)),
        ("C05", plus!(inbound::c05)),
        ("C06", plus!(outbound::c06)),
        ("C07", plus!(limits::c07)),
        ("C08", plus!(limits::c08)),
        ("C09", plus!(limits::c09)),
        ("C10", plus!(limits::c10)),
        ("C11", plus!(admin::c11)),
        ("C12", plus!(admin::c12)),
        ("C13", plus!(admin::c13)),
        ("C14", plus!(outbound::c14)),
        ("C17", inbound::c17),
        ("C18", plus!(admin::c18)),
        ("C19", plus!(admin::c19)),
        ("C20", plus!(inbound::c20)),
        ("C21", plus!(admin::c21)),
        ("C22", quoter::c22),
        ("C23", quoter::c23),
        ("C25", plus!(misc::c25)),
        ("C26", hooks::c26),
        ("C27", plus!(misc::c27)),
        ("C28", misc::c28),
        ("C29", misc::c29),
        ("C32", iface::c32),
        ("C45", ts::c45),
        ("C46", ts::c46),
    ]
}
