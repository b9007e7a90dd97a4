mod dom;
mod engine;
mod props;
#[allow(dead_code)]
mod refm;
use engine::Prop;

fn main() {
    use props::*;
    let props = [
        Prop { id: "C01", scenarios: angles::c01 },
        Prop { id: "C02", scenarios: angles::c02 },
        Prop { id: "C03", scenarios: angles::c03 },
        Prop { id: "C04", scenarios: angles::c04 },
        Prop { id: "C05", scenarios: angles::c05 },
        Prop { id: "C06", scenarios: earth::c06 },
        Prop { id: "C07", scenarios: earth::c07 },
        Prop { id: "C08", scenarios: earth::c08 },
        Prop { id: "C09", scenarios: earth::c09 },
        Prop { id: "C10", scenarios: projs::c10 },
        Prop { id: "C11", scenarios: projs::c11 },
        Prop { id: "C12", scenarios: projs::c12 },
        Prop { id: "C13", scenarios: projs::c13 },
        Prop { id: "C14", scenarios: pipe::c14 },
        Prop { id: "C16", scenarios: geod::c16 },
        Prop { id: "C17", scenarios: geod::c17 },
        Prop { id: "C18", scenarios: crsx::c18 },
        Prop { id: "C19", scenarios: crsx::c19 },
        Prop { id: "C20", scenarios: geom::c20 },
        Prop { id: "C21", scenarios: geom::c21 },
        Prop { id: "C22", scenarios: earth::c22 },
        Prop { id: "C23", scenarios: misc::c23 },
        Prop { id: "C24", scenarios: misc::c24 },
        Prop { id: "C25", scenarios: pipe::c25 },
    ];
    engine::main_with(&props)
}
