//! Properties that need the `geokit_verif` hooks of the library.
#[path = "../../mc/src/dom.rs"]
#[allow(dead_code)]
mod dom;
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
mod sampler;
mod shifts;

fn main() {
    engine::main_with(&[engine::Prop { id: "C15", scenarios: shifts::c15 }, engine::Prop { id: "C26", scenarios: sampler::c26 }])
}
