//! Which functions decide which property, and how many cases each tier runs.

use crate::engine::Prop;
use crate::model::{boosted, vast};
use crate::props::*;

pub struct Variant {
    pub name: &'static str,
    pub f: Prop,
    /// Cases over all shards of one build, per tier. Variants with one case are constructed cases.
    pub quick: u64,
    pub thorough: u64,
    /// Which builds run it, each with its share of the cases in percent.
    pub builds: &'static [(&'static str, u64)],
}
pub struct PropDef {
    pub id: &'static str,
    pub variants: &'static [Variant],
}
impl PropDef {
    /// The first variant again, steered by coverage; thorough only, as it finds planted bugs no
    /// sooner than the plain generators. Not where cases are few and long, or where
    /// threads make coverage depend on the schedule.
    pub fn guided(&self) -> Option<Variant> {
        let v = &self.variants[0];
        if ["C26", "C31", "C35", "C36"].contains(&self.id) {
            return None;
        }
        Some(Variant { name: "guided", f: v.f, quick: 0, thorough: v.thorough / 8, builds: &[("cost", 100)] })
    }
}
const fn v(name: &'static str, f: Prop, quick: u64, thorough: u64) -> Variant {
    Variant { name, f, quick, thorough, builds: &[("rel", 50), ("dbg", 50)] }
}
const fn on(builds: &'static [(&'static str, u64)], v: Variant) -> Variant {
    Variant { builds, ..v }
}
const WITH_ASAN: &[(&str, u64)] = &[("rel", 40), ("dbg", 40), ("asan", 20)];

pub const PROPS: &[PropDef] = &[
    PropDef { id: "C01", variants: &[v("main", green::c01, 720_000, 28_800_000), v("large", |s, c| boosted(green::c01, s, c), 400, 40_000), v("huge", green::c01_huge, 16, 400)] },
    PropDef { id: "C02", variants: &[v("main", green::c02, 3_600_000, 144_000_000), v("large", |s, c| boosted(green::c02, s, c), 400, 40_000)] },
    PropDef { id: "C03", variants: &[v("main", green::c03, 108_000, 4_320_000), v("large", |s, c| boosted(green::c03, s, c), 400, 40_000)] },
    PropDef { id: "C04", variants: &[v("main", green::c04, 108_000, 4_320_000), v("large", |s, c| boosted(green::c04, s, c), 400, 40_000), v("huge", green::c04_huge, 96, 4_000)] },
    PropDef { id: "C05", variants: &[v("main", green::c05, 840_000, 33_600_000), v("large", |s, c| boosted(green::c05, s, c), 400, 40_000)] },
    PropDef { id: "C06", variants: &[v("main", green::c06, 700_000, 28_000_000), v("large", |s, c| boosted(green::c06, s, c), 400, 40_000)] },
    PropDef { id: "C07", variants: &[v("main", green::c07, 3_600_000, 144_000_000), v("large", |s, c| boosted(green::c07, s, c), 4_000, 160_000)] },
    PropDef { id: "C08", variants: &[v("main", nav::c08, 480_000, 19_200_000), v("large", |s, c| boosted(nav::c08, s, c), 400, 40_000), v("huge", nav::c08_huge, 32, 1_000)] },
    PropDef { id: "C09", variants: &[v("main", nav::c09, 240_000, 9_600_000), v("large", |s, c| boosted(nav::c09, s, c), 400, 40_000), v("huge", nav::c09_huge, 32, 1_000)] },
    PropDef { id: "C10", variants: &[v("main", nav::c10, 480_000, 19_200_000), v("large", |s, c| boosted(nav::c10, s, c), 400, 40_000), v("vast", |s, c| vast(nav::c10, s, c), 320, 16_000)] },
    PropDef { id: "C11", variants: &[v("main", nav::c11, 360_000, 14_400_000), v("large", |s, c| boosted(nav::c11, s, c), 160, 16_000), v("vast", |s, c| vast(nav::c11, s, c), 320, 16_000)] },
    PropDef { id: "C12", variants: &[v("main", nav::c12, 1_080_000, 43_200_000), v("large", |s, c| boosted(nav::c12, s, c), 400, 40_000), v("vast", |s, c| vast(nav::c12, s, c), 320, 16_000)] },
    PropDef { id: "C13", variants: &[v("main", nav::c13, 400_000, 16_000_000), v("large", |s, c| boosted(nav::c13, s, c), 400, 40_000), v("history", machine::c13, 200_000, 8_000_000), v("far", nav::c13_far, 240, 12_000), v("vast", |s, c| vast(nav::c13, s, c), 320, 16_000)] },
    PropDef { id: "C14", variants: &[v("main", nav::c14, 240_000, 9_600_000), v("large", |s, c| boosted(nav::c14, s, c), 160, 16_000), v("vast", |s, c| vast(nav::c14, s, c), 320, 16_000)] },
    PropDef { id: "C15", variants: &[v("main", nav::c15, 240_000, 9_600_000), v("large", |s, c| boosted(nav::c15, s, c), 400, 40_000), v("vast", |s, c| vast(nav::c15, s, c), 320, 16_000)] },
    PropDef { id: "C16", variants: &[v("main", nav::c16, 240_000, 9_600_000), v("large", |s, c| boosted(nav::c16, s, c), 160, 16_000), v("vast", |s, c| vast(nav::c16, s, c), 320, 16_000)] },
    PropDef { id: "C17", variants: &[v("main", text::c17, 240_000, 9_600_000), v("large", |s, c| boosted(text::c17, s, c), 400, 40_000), v("vast", |s, c| vast(text::c17, s, c), 320, 16_000)] },
    PropDef { id: "C18", variants: &[v("main", text::c18, 320_000, 12_800_000), v("large", |s, c| boosted(text::c18, s, c), 400, 40_000), v("vast", |s, c| vast(text::c18, s, c), 320, 16_000)] },
    PropDef { id: "C19", variants: &[v("main", misc::c19, 560_000, 22_400_000), v("large", |s, c| boosted(misc::c19, s, c), 160, 16_000), v("vast", |s, c| vast(misc::c19, s, c), 320, 16_000)] },
    PropDef { id: "C20", variants: &[v("main", machine::c20, 540_000, 21_600_000), v("large", |s, c| boosted(machine::c20, s, c), 160, 16_000), v("huge", machine::huge, 48, 1_800), v("vast", |s, c| vast(machine::c20, s, c), 24, 1200)] },
    PropDef { id: "C21", variants: &[v("main", machine::c21, 420_000, 16_800_000), v("large", |s, c| boosted(machine::c21, s, c), 160, 16_000), v("huge", machine::huge, 48, 1_800), v("crowd", machine::crowd, 12_000, 500_000), v("vast", |s, c| vast(machine::c21, s, c), 24, 1200)] },
    PropDef { id: "C22", variants: &[v("main", machine::c22, 480_000, 19_200_000), v("large", |s, c| boosted(machine::c22, s, c), 160, 16_000), v("vast", |s, c| vast(machine::c22, s, c), 8, 400)] },
    PropDef { id: "C23", variants: &[v("main", machine::c23, 480_000, 19_200_000), v("large", |s, c| boosted(machine::c23, s, c), 160, 16_000), v("vast", |s, c| vast(machine::c23, s, c), 24, 1200)] },
    PropDef { id: "C24", variants: &[v("main", misc::c24, 560_000, 22_400_000), v("large", |s, c| boosted(misc::c24, s, c), 400, 40_000), v("vast", |s, c| vast(misc::c24, s, c), 320, 16_000)] },
    PropDef { id: "C25", variants: &[on(WITH_ASAN, v("main", memory::c25, 300_000, 16_000_000)), on(&[("rel", 100)], v("count", memory::count, 8, 12))] },
    PropDef {
        id: "C26",
        variants: &[
            on(&[("rel", 40), ("dbg", 20), ("tsan", 40)], v("main", threads::c26, 100_000, 4_000_000)),
            on(&[("rel", 50), ("tsan", 50)], v("hammer", threads::hammer, 4_000, 200_000)),
            on(&[("miri", 100)], v("small", threads::small, 240, 12_000)),
            on(&[("rel", 100)], v("traits", threads::traits, 1, 1)),
        ],
    },
    PropDef { id: "C27", variants: &[v("main", misc::c27, 420_000, 16_800_000), v("large", |s, c| boosted(misc::c27, s, c), 400, 40_000), v("vast", |s, c| vast(misc::c27, s, c), 96, 4_800)] },
    PropDef { id: "C28", variants: &[v("main", misc::c28, 560_000, 22_400_000), v("large", |s, c| boosted(misc::c28, s, c), 160, 16_000), v("vast", |s, c| vast(misc::c28, s, c), 320, 16_000)] },
    PropDef { id: "C29", variants: &[v("main", misc::c29, 420_000, 16_800_000), v("large", |s, c| boosted(misc::c29, s, c), 400, 40_000), v("vast", |s, c| vast(misc::c29, s, c), 320, 16_000)] },
    PropDef { id: "C30", variants: &[v("main", nav::c30, 420_000, 16_800_000), v("large", |s, c| boosted(nav::c30, s, c), 400, 40_000), v("vast", |s, c| vast(nav::c30, s, c), 320, 16_000)] },
    PropDef { id: "C31", variants: &[v("main", big::c31, 8_000, 320_000), on(&[("rel", 100)], v("token", big::token, 1, 1))] },
    PropDef { id: "C32", variants: &[on(WITH_ASAN, v("main", machine::c32, 240_000, 9_600_000)), v("large", |s, c| boosted(machine::c32, s, c), 160, 16_000), v("vast", |s, c| vast(machine::c32, s, c), 24, 1200)] },
    PropDef { id: "C33", variants: &[v("main", share::c33, 400_000, 16_000_000), v("large", |s, c| boosted(share::c33, s, c), 160, 16_000), v("vast", |s, c| vast(share::c33, s, c), 320, 16_000)] },
    PropDef { id: "C34", variants: &[v("main", share::c34, 400_000, 16_000_000), v("large", |s, c| boosted(share::c34, s, c), 160, 16_000), v("vast", |s, c| vast(share::c34, s, c), 320, 16_000)] },
    PropDef { id: "C35", variants: &[on(&[("cost", 100)], v("main", cost::c35, 1_200, 60_000))] },
    PropDef { id: "C36", variants: &[v("main", stack::c36, 1_600, 80_000)] },
    PropDef { id: "C37", variants: &[on(WITH_ASAN, v("main", machine::callbacks::c37, 300_000, 12_000_000)), v("leaks", memory::leaks37, 40_000, 2_000_000), v("vast", |s, c| vast(machine::callbacks::c37, s, c), 24, 1200)] },
    PropDef { id: "C38", variants: &[v("main", green::builds::c38, 400_000, 16_000_000), v("large", |s, c| boosted(green::builds::c38, s, c), 400, 40_000), v("leaks", memory::leaks38, 60_000, 2_400_000)] },
];

pub fn find(id: &str, variant: &str) -> Option<Prop> {
    let p = PROPS.iter().find(|p| p.id == id)?;
    p.variants.iter().find(|v| v.name == variant).map(|v| v.f).or_else(|| p.guided().filter(|v| v.name == variant).map(|v| v.f))
}
