pub mod accept; // L01 L02
pub mod construct; // L03 L04 L17
pub mod pairs;
pub mod compare; // L11 L12 L13
pub mod decompose; // L05 L20
pub mod kinds; // L09 L10
pub mod lists; // L07
pub mod lookup; // L08
pub mod reach; // L06
pub mod collections; // L14
pub mod recase; // L15
pub mod build; // L21
pub mod zerocopy; // L16
pub mod configs; // L18
pub mod consteval; // L19
pub mod cost; // L22
pub mod history; // L23
pub mod memory; // L24
pub mod grammar; // L25
pub mod targets; // L26

use crate::engine::Property;

pub fn all() -> Vec<&'static Property> {
    vec![
        &accept::L01,
        &accept::L02,
        &construct::L03,
        &construct::L04,
        &decompose::L05,
        &reach::L06,
        &lists::L07,
        &lookup::L08,
        &kinds::L09,
        &kinds::L10,
        &compare::L11,
        &compare::L12,
        &compare::L13,
        &collections::L14,
        &recase::L15,
        &zerocopy::L16,
        &construct::L17,
        &configs::L18,
        &consteval::L19,
        &decompose::L20,
        &build::L21,
        &cost::L22,
        &history::L23,
        &memory::L24,
        &grammar::L25,
        &targets::L26,
    ]
}
