pub mod gen;
mod head;
mod hpack;
pub mod hpack_ref;
mod h2;
mod http1;
mod sizes;
mod streams;
mod builders;
mod facts;
mod tokens;
mod url;
mod ws;

use crate::engine::Prop;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C40", "C41", "C42", "C43", "C44", "C45"];

pub fn get(id: &str) -> Option<Prop> {
    match id {
        "C01" => Some(http1::c01()),
        "C02" => Some(http1::c02()),
        "C03" => Some(http1::c03()),
        "C04" => Some(http1::c04()),
        "C07" => Some(http1::c07()),
        "C08" => Some(head::c08()),
        "C09" => Some(head::c09()),
        "C10" => Some(head::c10()),
        "C11" => Some(url::c11()),
        "C12" => Some(url::c12()),
        "C13" => Some(url::c13()),
        "C14" => Some(hpack::c14()),
        "C15" => Some(hpack::c15()),
        "C16" => Some(hpack::c16()),
        "C17" => Some(hpack::c17()),
        "C30" => Some(http1::c30()),
        "C33" => Some(head::c33()),
        "C43" => Some(streams::c43()),
        "C44" => Some(streams::c44()),
        "C45" => Some(streams::c45()),
        "C05" => Some(h2::c05()),
        "C18" => Some(h2::c18()),
        "C19" => Some(h2::c19()),
        "C20" => Some(h2::c20()),
        "C21" => Some(h2::c21()),
        "C22" => Some(h2::c22()),
        "C31" => Some(h2::c31()),
        "C06" => Some(ws::c06()),
        "C23" => Some(ws::c23()),
        "C24" => Some(ws::c24()),
        "C25" => Some(ws::c25()),
        "C26" => Some(tokens::c26()),
        "C27" => Some(tokens::c27()),
        "C28" => Some(tokens::c28()),
        "C29" => Some(sizes::c29()),
        "C34" => Some(builders::c34()),
        "C36" => Some(builders::c36()),
        "C37" => Some(builders::c37()),
        "C35" => Some(tokens::c35()),
        "C38" => Some(facts::c38()),
        "C39" => Some(facts::c39()),
        "C40" => Some(facts::c40()),
        "C41" => Some(facts::c41()),
        "C42" => Some(hpack::c42()),
        "C32" => Some(h2::c32()),
        _ => None,
    }
    .map(|p| Prop { id: IDS.iter().find(|x| **x == id).unwrap(), ..p })
}
