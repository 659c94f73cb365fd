//! Properties decided on histories of one buffer.

use crate::common::*;
use crate::monitors::*;
use crate::props_deep::deep_case;
use crate::rng::{mix2, Rng};
use crate::run::{Ctx, Outcome};
use crate::session::{plan_case, Plan0, Profile};

fn edit_mon(plan: &Plan0) -> EditMon {
    EditMon { replaced: !plan.from_file && !plan.typed_in && !plan.text.is_empty(), ..EditMon::default() }
}

fn mode(seed: u64) -> usize {
    Rng::new(mix2(seed, 0x30DE)).below(100)
}

pub fn t04(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { invalid: 14, move_to: 16, group: 4, replace: 1, ..Profile::default() };
    if mode(seed) < 25 {
        let prof = Profile { replace: 0, ..prof };
        return predictive_case(ctx, seed, keep, &prof, Observe { text: true, cursor: true, ..Observe::default() });
    }
    session_case(ctx, seed, keep, &prof, &|plan| vec![Box::new(edit_mon(plan))], &["insertions judged", "deletions at the cursor judged", "range deletions judged"])
}

pub fn u01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { undo: 16, redo: 11, group: 2, replace: 2, invalid: 10, ..Profile::default() };
    if mode(seed) < 25 {
        return predictive_case(ctx, seed, keep, &prof, Observe { text: true, ..Observe::default() });
    }
    if mode(seed) < 33 {
        return deep_case(ctx, seed, keep, true, false, false);
    }
    session_case(ctx, seed, keep, &prof, &|plan| vec![Box::new(history_for(plan, true, false))], &[
        "undo calls with something to undo",
        "redo calls with something to redo",
    ])
}

pub fn u02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { undo: 10, redo: 9, group: 22, replace: 2, invalid: 8, ..Profile::default() };
    if mode(seed) < 25 {
        return predictive_case(ctx, seed, keep, &prof, Observe { text: true, ..Observe::default() });
    }
    if mode(seed) < 33 {
        return deep_case(ctx, seed, keep, true, false, true);
    }
    session_case(ctx, seed, keep, &prof, &|plan| vec![Box::new(history_for(plan, true, false))], &["groups undone", "groups redone"])
}

pub fn u03(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile {
        undo: 18,
        redo: 12,
        group: 7,
        replace: 2,
        save: 8,
        save_fail: 2,
        reload: 4,
        reload_fail: 1,
        external: 2,
        from_file: 65,
        insert: 16,
        big: false,
        ..Profile::default()
    };
    if mode(seed) < 8 {
        return deep_case(ctx, seed, keep, false, true, seed % 3 == 0);
    }
    session_case(ctx, seed, keep, &prof, &|plan| vec![Box::new(history_for(plan, false, true))], &[
        "states required to report unmodified",
        "returns to the synchronised point by undo/redo",
    ])
}

pub fn u04(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { group: 8, replace: 3, reload: 2, external: 1, save: 1, undo: 16, redo: 12, invalid: 10, from_file: 30, ..Profile::default() };
    session_case(ctx, seed, keep, &prof, &|_| vec![Box::new(CallbackMon::default())], &["changes that had to be announced"])
}

pub fn u05(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { group: 10, replace: 3, reload: 2, external: 1, save: 1, undo: 16, redo: 12, invalid: 10, from_file: 30, watch: true, ..Profile::default() };
    session_case(ctx, seed, keep, &prof, &|_| vec![Box::new(PeekMon::default())], &["changes compared with what the callback saw"])
}

pub fn c01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile {
        move_to: 40,
        vertical: 10,
        horizontal: 10,
        line_ends: 6,
        first_last: 6,
        invalid: 40,
        insert: 14,
        replace: 2,
        ..Profile::default()
    };
    if mode(seed) < 20 {
        return predictive_case(ctx, seed, keep, &prof, Observe { cursor: true, ..Observe::default() });
    }
    session_case(ctx, seed, keep, &prof, &|_| vec![Box::new(CursorMon::new(true, false))], &[
        "placements at existing positions",
        "placements at positions that don't exist",
    ])
}

pub fn c02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile {
        move_to: 14,
        vertical: 34,
        horizontal: 14,
        line_ends: 9,
        first_last: 10,
        insert: 10,
        delete: 4,
        delete_range: 3,
        undo: 3,
        redo: 2,
        group: 1,
        replace: 1,
        invalid: 10,
        ..Profile::default()
    };
    if mode(seed) < 20 {
        return predictive_case(ctx, seed, keep, &prof, Observe { cursor: true, ..Observe::default() });
    }
    session_case(ctx, seed, keep, &prof, &|_| vec![Box::new(CursorMon::new(true, true))], &["relative movements judged"])
}

pub fn f03(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile {
        replace: 22,
        reload: 12,
        external: 8,
        save: 3,
        move_to: 24,
        undo: 9,
        redo: 6,
        from_file: 60,
        group: 4,
        reload_fail: 1,
        ..Profile::default()
    };
    session_case(
        ctx,
        seed,
        keep,
        &prof,
        &|plan| {
            vec![
                Box::new(ReplaceMon::default()),
                Box::new(FileMon { judge_success: true, ..FileMon::default() }),
                Box::new(history_for(plan, true, true)),
            ]
        },
        &["replacements keeping the cursor", "replacements keeping only the cursor's line", "replacements resetting the cursor"],
    )
}

pub fn s01_session(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { search: 40, insert: 14, replace: 4, undo: 4, redo: 3, move_to: 10, group: 0, long: false, ..Profile::default() };
    if mode(seed) < 15 {
        return predictive_case(ctx, seed, keep, &prof, Observe { search: true, ..Observe::default() });
    }
    session_case(ctx, seed, keep, &prof, &|_| vec![Box::new(SearchMon::default())], &["results"])
}

pub fn r01_session(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile {
        invalid: 60,
        read: 16,
        in_bounds: 10,
        search: 6,
        line_count: 2,
        delete_range: 20,
        delete: 12,
        move_to: 22,
        vertical: 8,
        horizontal: 8,
        line_ends: 6,
        first_last: 6,
        group: 3,
        replace: 2,
        ..Profile::default()
    };
    session_case(
        ctx,
        seed,
        keep,
        &prof,
        &|plan| {
            vec![
                Box::new(edit_mon(plan)),
                Box::new(ReadMon::new()),
                Box::new(CursorMon::new(true, false)),
                Box::new(history_for(plan, true, false)),
            ]
        },
        &[
            "reads of ranges that don't exist",
            "range deletions at positions that don't exist",
            "placements at positions that don't exist",
            "deletions at a cursor that no longer exists",
        ],
    )
}

pub fn f01_session(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { save: 18, reload: 8, external: 8, from_file: 80, ..Profile::default() };
    session_case(
        ctx,
        seed,
        keep,
        &prof,
        &|plan| vec![Box::new(FileMon { judge_success: true, ..FileMon::default() }), Box::new(history_for(plan, true, false))],
        &["saves"],
    )
}

pub fn f02_session(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { save: 5, save_fail: 14, reload: 4, reload_fail: 12, external: 4, from_file: 80, group: 5, ..Profile::default() };
    session_case(
        ctx,
        seed,
        keep,
        &prof,
        &|plan| vec![Box::new(FileMon { judge_failure: true, judge_success: true, ..FileMon::default() }), Box::new(history_for(plan, true, true))],
        &["failing saves", "failing reloads"],
    )
}

#[allow(dead_code)]
pub fn plan_of(ctx: &Ctx, seed: u64, prof: &Profile) -> Plan0 {
    plan_case(seed, prof, &ctx.dict)
}
