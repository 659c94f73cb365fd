//! Runtime monitors for scribe: workloads, online monitors and a reference model.

pub mod common;
pub mod fault;
pub mod gen;
pub mod memwork;
pub mod model;
pub mod monitors;
pub mod props_deep;
pub mod props_hist;
pub mod props_proc;
pub mod props_io;
pub mod props_disk;
pub mod props_res;
pub mod props_space;
pub mod props_still;
pub mod props_text;
pub mod props_twin;
pub mod props_tok;
pub mod props_work;
pub mod props_ws;
pub mod rng;
pub mod run;
pub mod session;
pub mod still;
pub mod track;

use run::Prop;

const STD: Prop = Prop {
    id: "",
    rule: "",
    level: "exploration",
    case: props_text::t01,
    min_cases: 300,
    must_see: &[],
    quick_secs: 12.0,
    thorough_secs: 600.0,
    shared: None,
    deep: false,
    assumptions: &[],
};

pub static PROPS: &[Prop] = &[
    Prop { id: "T01", case: props_text::t01, rule: "at least two edits applied to a gap buffer whose content was compared with a plain string", must_see: &["insertions applied", "deletions applied", "deletions ending past the text or line", "edits at positions that don't exist", "contents compared"], ..STD },
    Prop { id: "T02", case: props_text::t02, rule: "at least two edits and one range read, every answer judged against the content", must_see: &["ranges read", "reads of ranges that don't exist", "positions in bounds", "positions out of bounds", "contents with every position checked"], ..STD },
    Prop { id: "T03", case: props_text::t03, rule: "a history changed the text, and the result was compared with buffers built otherwise", must_see: &["changes before comparing", "pairs of buffers compared", "questions asked of both", "further calls made on both"], ..STD },
    Prop { id: "T04", case: props_hist::t04, rule: "an edit whose exact effect and cursor were judged", must_see: &["insertions judged", "deletions at the cursor judged", "range deletions judged", "undo/redo calls judged for cursor", "observations in occasionally observed histories"], ..STD },
    Prop { id: "R01", case: props_text::r01, rule: "a call addressing something that does not exist was judged", must_see: &["reads of ranges that don't exist", "range deletions at positions that don't exist", "placements at positions that don't exist", "deletions at a cursor that no longer exists", "insertions at a cursor that no longer exists", "relative movements from a cursor that no longer exists", "out of range arguments to the text store"], ..STD },
    Prop { id: "U01", case: props_hist::u01, rule: "an undo or redo with something to reverse was judged", must_see: &["undo calls with something to undo", "redo calls with something to redo", "undo calls with nothing to undo", "redo calls with nothing to redo", "edits discarding redoable modifications"], ..STD },
    Prop { id: "U02", case: props_hist::u02, rule: "a group was undone or redone and judged", must_see: &["groups undone", "groups redone"], ..STD },
    Prop { id: "U03", case: props_hist::u03, rule: "a state whose modified flag was determined was judged", must_see: &["states required to report unmodified", "states required to report modified", "returns to the synchronised point by undo/redo", "states without a path judged"], ..STD },
    Prop { id: "U04", case: props_hist::u04, rule: "a change of the text whose announcement was judged", must_see: &["changes that had to be announced", "changes announced by several callbacks"], ..STD },
    Prop { id: "U05", case: props_hist::u05, rule: "a change was announced, and the text compared that the callback found", must_see: &["changes compared with what the callback saw", "calls announcing several changes", "calls that had to announce nothing"], ..STD },
    Prop { id: "C01", case: props_hist::c01, rule: "an explicit cursor placement was judged", must_see: &["placements at existing positions", "placements at positions that don't exist", "relative movements judged"], ..STD },
    Prop { id: "C02", case: props_hist::c02, rule: "a relative movement was judged", must_see: &["relative movements judged", "vertical movements clamped to a shorter line"], ..STD },
    Prop { id: "F01", case: props_io::f01, rule: "a file was loaded or saved and compared byte for byte", must_see: &["files loaded", "saves", "reads and writes interrupted", "reads and writes shortened"], ..STD },
    Prop { id: "F02", case: props_io::f02, level: "fault_enumeration", rule: "a load, save or reload was made to fail at an enumerated call and judged", must_see: &["failing call positions enumerated", "calls failed by injection", "failing saves", "failing reloads", "real failures (missing, folder, invalid text or path)"], ..STD },
    Prop { id: "F04", case: props_disk::f04, rule: "a file was saved, and everything else around it compared before and after", must_see: &["saves", "loads and reloads", "failing calls", "files created by saving", "files reached through links"], ..STD },
    Prop { id: "E01", case: props_res::e01, level: "fault_enumeration", shared: Some(props_tok::shared), rule: "a call failed for a known cause, and the error was compared with it", must_see: &["errors injected and compared", "errors of the system compared", "errors of the library's own compared", "texts that aren't UTF-8 reported as such"], ..STD },
    Prop { id: "F05", case: props_res::f05, shared: Some(props_res::watched), rule: "file operations were made, some failing, and the process looked at after each", must_see: &["file operations", "failing file operations", "looks at the open files", "looks at directory, mask, signals and environment"], ..STD },
    Prop { id: "F06", case: props_still::f06, shared: Some(props_tok::shared), rule: "several calls were made whose system calls were watched and judged", must_see: &["calls on text and workspaces watched", "calls in histories of workspaces watched", "calls on large texts, histories and workspaces watched", "calls on buffers with odd paths watched", "file operations watched", "loads and reloads watched", "saves watched", "creations of workspaces watched"], ..STD },
    Prop { id: "M02", case: props_res::m02, shared: Some(props_tok::shared), rule: "calls that keep text and history were repeated some hundred times, and the memory held compared", must_see: &["repetitions", "repetitions of calls on workspaces", "repetitions with undo and redo", "repetitions with file operations"], ..STD },
    Prop { id: "F03", case: props_hist::f03, rule: "a replacement or reload was judged", must_see: &["replacements keeping the cursor", "replacements keeping only the cursor's line", "replacements resetting the cursor", "replacements with identical text", "reloads"], ..STD },
    Prop { id: "Q01", case: props_twin::q01, shared: Some(props_tok::shared), rule: "a history changing the text was repeated without questions in between and with many, and compared", must_see: &["questions asked", "calls repeated with and without questions", "changes of the text", "calls on workspaces repeated with and without questions"], ..STD },
    Prop { id: "I01", case: props_twin::i01, shared: Some(props_tok::shared), rule: "histories recorded by themselves were repeated with other buffers in use, and compared", must_see: &["calls repeated taking turns with other buffers", "calls on bystanders", "calls repeated on several threads", "calls within the change callback of another buffer", "calls on workspaces repeated with other workspaces in use"], ..STD },
    Prop { id: "D01", case: props_proc::d01, min_cases: 30, rule: "the same histories were gone through in several processes and circumstances, and everything they showed was compared", must_see: &["processes", "steps told and compared", "processes in other circumstances", "processes with another order of histories", "processes of a program built without assertions and overflow checks", "processes making the calls on a further thread"], ..STD },
    Prop { id: "P01", case: props_work::p01, min_cases: 8, quick_secs: 30.0, rule: "instructions were counted for calls at some size and at four times that size, and compared", must_see: &["pairs of sizes compared", "instructions counted"], ..STD },
    Prop { id: "R02", case: props_work::r02, min_cases: 60, deep: true, rule: "the stack used by calls was measured at some size and at four times that size, and compared", must_see: &["pairs of sizes compared", "pairs of histories and groups compared"], ..STD },
    Prop { id: "M03", case: props_work::m03, min_cases: 60, rule: "the memory held by a text and its history, or used by a call, was measured at some size and at four times that size, and compared", must_see: &["pairs of sizes compared", "pairs of histories compared", "pairs of workspaces compared", "texts with all questions asked"], ..STD },
    Prop { id: "S01", case: props_text::s01, rule: "a search with at least one expected occurrence was judged", must_see: &["results", "searches with several results", "searches without results"], ..STD },
    Prop {
        id: "K01",
        case: props_tok::k01,
        shared: Some(props_tok::shared),
        rule: "a text was lexed into several tokens, which were compared with it",
        must_see: &["newline tokens", "lexemes starting within a cluster", "lexemes read back from their position"],
        ..STD
    },
    Prop {
        id: "K02",
        case: props_tok::k02,
        shared: Some(props_tok::shared),
        rule: "a text was lexed, and the scopes of its lexemes compared with those of an independent parse",
        must_see: &["lexemes with more than two scopes"],
        ..STD
    },
    Prop {
        id: "K03",
        case: props_tok::k03,
        level: "fault_enumeration",
        shared: Some(props_tok::shared),
        rule: "lexing was made to fail, by the text, the syntax, or the lack of one, and the failure was judged",
        must_see: &["texts failing on the first line", "texts failing on a later line", "foreign syntax definitions", "missing buffer or syntax"],
        ..STD
    },
    Prop {
        id: "W01",
        case: props_ws::w01,
        rule: "a history with at least two buffers open at once, the current buffer and the index judged after every operation",
        must_see: &["moves that wrapped around", "closes of the first buffer", "operations on an empty workspace", "paths opened again"],
        ..STD
    },
    Prop {
        id: "W02",
        case: props_ws::w02,
        rule: "a history with at least two buffers open at once, every buffer's state compared whenever it was visited",
        must_see: &["edits", "edits undone or redone", "tours of all buffers", "closes"],
        ..STD
    },
    Prop {
        id: "W03",
        case: props_ws::w03,
        level: "fault_enumeration",
        rule: "a history with at least two buffers open at once, paths being opened by several spellings or failing",
        must_see: &["paths opened again by another spelling", "opens that had to fail", "opens failed by injection", "buffers opened by path"],
        ..STD
    },
    Prop {
        id: "W04",
        case: props_ws::w04,
        rule: "a history with at least two buffers open at once, every buffer's syntax judged whenever it was visited",
        must_see: &[
            "syntaxes derived from a path",
            "plain text for want of a better syntax",
            "syntaxes derived from a name without extension",
            "syntaxes given in advance",
            "syntax updates",
            "workspaces with user syntaxes",
            "workspaces refused",
        ],
        ..STD
    },
    Prop {
        id: "W05",
        case: props_ws::w05,
        rule: "a history with at least two buffers open at once, the list of paths judged after every operation",
        must_see: &["paths inside the workspace judged", "paths outside judged", "paths outside beginning like the workspace's", "buffers without a path judged"],
        ..STD
    },
    Prop { id: "W06", case: props_disk::w06, min_cases: 100, shared: Some(props_disk::bundled), rule: "a workspace was created, and all that can be asked of it judged", must_see: &["workspaces created", "workspaces with user syntaxes", "workspaces refused"], ..STD },
    Prop { id: "L01", case: props_text::l01, rule: "a text with a line feed was iterated", must_see: &["texts ending in a line feed", "empty texts", "lines compared"], ..STD },
    Prop { id: "G01", case: props_text::g01, rule: "positions, ranges and distances of a text with several clusters were judged", must_see: &["distances checked against an insertion", "position pairs compared", "sums of distances"], ..STD },
    Prop { id: "A01", min_cases: 60, case: props_text::a01, rule: "a run of insertions during which the storage grew at least once", must_see: &["insertions into freed space", "storage replacements seen"], ..STD },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
