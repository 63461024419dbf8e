//! Analysis of the parser's productions.
use crate::interp::*;
use crate::val::*;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::def_id::DefId;
use std::collections::HashSet;

pub const NTS: &[&str] = &[
    "complete_command", "complete_command_with_leading_comments", "and_or_list", "pipeline", "command", "simple_command",
    "redirect_list", "redirect", "redirect_heredoc", "word", "word_preserve_trailing_whitespace",
    "word_preserve_trailing_whitespace_raw_with_delim", "word_interpolated_raw", "backticked_command_substitution", "backticked_raw",
    "parameter", "parameter_raw", "parameter_substitution_word_raw", "parameter_substitution_body_raw", "parameter_substitution_raw",
    "parameter_inner", "do_group", "brace_group", "subshell", "subshell_internal", "compound_command", "compound_command_internal",
    "loop_command", "if_command", "for_command", "case_command", "maybe_function_declaration", "function_declaration",
    "function_declaration_internal", "linebreak", "newline", "peek_reserved_token", "peek_reserved_word", "reserved_token", "reserved_word",
    "command_group", "command_group_internal", "arithmetic_substitution", "arith_assig", "arith_ternary", "arith_logical_or",
    "arith_logical_and", "arith_bitwise_or", "arith_bitwise_xor", "arith_bitwise_and", "arith_eq", "arith_ineq", "arith_shift", "arith_add",
    "arith_mult", "arith_pow", "arith_unary_misc", "arith_post_incr", "arith_var",
    "skip_whitespace",
];

pub fn find_fns(tcx: TyCtxt<'_>) -> Vec<(String, DefId)> {
    let mut out = vec![];
    for d in tcx.hir_body_owners() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) { continue }
        out.push((tcx.def_path_str(d), d));
    }
    out
}
pub fn find_adt(tcx: TyCtxt<'_>, path: &str) -> Option<DefId> {
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Struct | rustc_hir::def::DefKind::Enum) && tcx.def_path_str(d) == path { return Some(d) }
    }
    None
}
pub fn parser_fn(tcx: TyCtxt<'_>, name: &str) -> Option<DefId> {
    let p = find_adt(tcx, "parse::Parser")?;
    for i in tcx.inherent_impls(p) {
        for a in tcx.associated_items(*i).in_definition_order() { if a.name().as_str() == name && a.is_fn() { return Some(a.def_id) } }
    }
    None
}

/// the values with which a production is analysed
pub fn params<'tcx>(an: &mut An<'tcx>, def: DefId, name: &str) -> Vec<(Vec<Lab>, Vec<V>)> {
    let tcx = an.tcx;
    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
    let mut acc: Vec<(Vec<Lab>, Vec<V>)> = vec![(vec![], vec![])];
    let names = tcx.fn_arg_idents(def);
    for (i, t) in sig.inputs().iter().enumerate().skip(1) {
        let pn = names.get(i).and_then(|x| *x).map(|x| x.to_string()).unwrap_or(format!("arg{i}"));
        let _ = pn;
        let sym = Sym { base: s(&format!("arg{i}")), age: 0, path: s(""), tracked: true };
        let alts = special(an, name, i, *t).unwrap_or_else(|| an.shape(*t, sym, 0));
        let alts: Vec<(String, V)> = alts.into_iter().map(|(n, v)| {
            (n, match v { V::Sym(mut y) => { y.tracked = y.tracked && t.needs_drop(tcx, an.env); V::Sym(y) } v => v })
        }).collect();
        acc = acc.into_iter().flat_map(|(l, v)| alts.iter().map(move |(n, x)| {
            let mut l = l.clone();
            if !n.is_empty() { l.push(Lab::t(&format!("arg{i}={n}"))) }
            let mut v = v.clone();
            v.push(x.clone());
            (l, v)
        }).collect::<Vec<_>>()).collect();
    }
    acc
}
fn cref(v: V) -> V { V::Ref(Pl { base: Base::Const(std::rc::Rc::new(v)), proj: vec![] }) }
fn special<'tcx>(an: &mut An<'tcx>, name: &str, i: usize, t: ty::Ty<'tcx>) -> Option<Vec<(String, V)>> {
    let tok = |an: &mut An<'tcx>, n: &str| -> V {
        let ad = an.tcx.adt_def(an.token_def);
        let k = ad.variants().iter().position(|v| v.name.as_str() == n).unwrap_or(0) as u32;
        let a = an.adt(an.token_def);
        V::Adt(a, k, vec![])
    };
    let words = |l: &[&str]| cref(V::Arr(l.iter().map(|w| V::Str(s(w))).collect()));
    let r = match (name, i) {
        ("word_preserve_trailing_whitespace_raw_with_delim", 1) => {
            let c = tok(an, "CurlyClose");
            vec![("None".to_string(), an.none()), ("Some CurlyClose".to_string(), an.some(c))]
        }
        ("word_interpolated_raw", 1) => {
            let c = tok(an, "DoubleQuote");
            vec![("None".to_string(), an.none()), ("Some DoubleQuote".to_string(), an.some(V::Tup(vec![c.clone(), c])))]
        }
        ("peek_reserved_word" | "reserved_word", 1) => vec![("[]".into(), words(&[])), ("[do]".into(), words(&["do"])), ("[elif,else,fi]".into(), words(&["elif", "else", "fi"]))],
        ("peek_reserved_token" | "reserved_token", 1) => {
            let a = tok(an, "CurlyClose");
            let b = tok(an, "Dash");
            vec![("[]".into(), cref(V::Arr(vec![]))), ("[CurlyClose]".into(), cref(V::Arr(vec![a.clone()]))), ("[CurlyClose,Dash]".into(), cref(V::Arr(vec![a, b])))]
        }
        ("command_group" | "command_group_internal", 1) => {
            let ad = match t.kind() { ty::Adt(ad, _) => *ad, _ => return None };
            let ix = an.adt(ad.did());
            let cl = tok(an, "CurlyClose");
            let pc = tok(an, "ParenClose");
            let ds = tok(an, "DSemi");
            let cfgs: Vec<(&str, Vec<&str>, Vec<V>, Vec<V>)> = vec![
                ("{}", vec![], vec![], vec![]),
                ("{done}", vec!["done"], vec![], vec![]),
                ("{do}", vec!["do"], vec![], vec![]),
                ("{then}", vec!["then"], vec![], vec![]),
                ("{elif,else,fi}", vec!["elif", "else", "fi"], vec![], vec![]),
                ("{fi}", vec!["fi"], vec![], vec![]),
                ("{CurlyClose}", vec![], vec![cl], vec![]),
                ("{ParenClose}", vec![], vec![], vec![pc]),
                ("{esac,DSemi}", vec!["esac"], vec![], vec![ds]),
            ];
            let order: Vec<String> = ad.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
            let mut out = vec![];
            for (n, w, rt, et) in cfgs {
                let fs = order.iter().map(|f| match f.as_str() {
                    "reserved_words" => words(&w),
                    "reserved_tokens" => cref(V::Arr(rt.clone())),
                    "exact_tokens" => cref(V::Arr(et.clone())),
                    _ => V::Top,
                }).collect();
                out.push((n.to_string(), V::Adt(ix, 0, fs)));
            }
            out
        }
        _ => return None,
    };
    Some(r)
}

pub fn config() -> Config {
    let mut c = Config::default();
    c.counts = true;
    c.nts = NTS.iter().filter(|n| **n != "skip_whitespace").map(|n| format!("Parser::{n}")).collect();
    c.ws_intrinsic = true;
    c.max_states = std::env::var("CONCH_SA_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(400_000);
    c
}

pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>, name: &str, mut cfg: Config) -> Result<(An<'tcx>, Graph), String> {
    // its look-ahead speaks about tokens that the callee takes
    if name == "skip_whitespace" { cfg.ws_intrinsic = false; }
    if name == "arith_assig" { cfg.nts.remove("Parser::arith_var"); }
    crate::hooks::COARSE.with(|c| c.set(name == "redirect_heredoc"));
    let Some(def) = parser_fn(tcx, name) else { return Err(format!("no function Parser::{name}")) };
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let Some(parser) = find_adt(tcx, "parse::Parser") else { return Err("no parse::Parser".into()) };
    let mut an = An::new(tcx, def, cfg, token);
    let ad = tcx.adt_def(parser);
    let fields: Vec<String> = ad.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
    let Some(fi) = fields.iter().position(|f| f == "iter") else { return Err("Parser has no field iter".into()) };
    an.parser_iter_field = fi as u16;
    an.iter_proj = vec![P::F(fi as u16)];
    let r = an.run(&|an: &mut An<'tcx>| {
        let pix = an.adt(parser);
        let fs: Vec<V> = fields.iter().map(|f| match f.as_str() {
            "iter" => V::Stream(Box::new(Stream { id: s("in"), ch: false, la: vec![], start: 0 })),
            f => V::sym(f),
        }).collect();
        let mut out = vec![];
        for (l, p) in params(an, def, name) {
            let mut st = St::default();
            st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals: vec![V::Adt(pix, 0, fs.clone())], dest: None, target: 0 });
            let ga = ty::GenericArgs::identity_for_item(an.tcx, def);
            let b = an.body_of(def, u32::MAX, ga).unwrap();
            let mut args = vec![V::Ref(Pl { base: Base::Local(0, 0), proj: vec![] })];
            args.extend(p);
            let fr = an.new_frame(b, args, None, 0);
            st.frames.push(fr);
            out.push((l, st));
        }
        out
    });
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) if std::env::var("CONCH_SA_HOT").is_ok() => { an.hot(); Err(format!("{e:?}")) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}

fn any<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    if crate::drive::OBJECTS.contains(&name) { crate::drive::analyse(tcx, name) }
    else if crate::iters::ITERS.contains(&name) { crate::iters::analyse(tcx, name) }
    else if name.contains('.') { crate::func::analyse(tcx, name) }
    else { analyse(tcx, name, config()) }
}
fn everything<'a>(f: &'a str, fnames: &'a [String]) -> Vec<&'a str> {
    match f {
        "all" => NTS.iter().chain(crate::drive::OBJECTS).chain(crate::iters::ITERS).copied().collect(),
        "functions" => fnames.iter().map(|x| x.as_str()).collect(),
        f => f.split(',').map(|x| x.trim()).collect(),
    }
}
pub fn dump(tcx: TyCtxt<'_>, f: &str) {
    let fnames = crate::func::names();
    let list: Vec<&str> = everything(f, &fnames);
    let _ : HashSet<u8> = HashSet::new();
    for name in &list {
        let t = std::time::Instant::now();
        if *name == "types" { println!("{}", crate::effects::types(tcx)); continue }
        if *name == "effects" { println!("{}", crate::effects::record(tcx)); continue }
        let res = any(tcx, name);
        match res {
            Err(e) => println!("{name}: FAILED {e}"),
            Ok((an, g)) => {
                println!("{name}: states {} edges {} labels {} steps {} tpart {} cpart {} {:?}", g.states, g.edges.iter().map(|e| e.len()).sum::<usize>(), g.labels.len(), g.steps, an.tpart.len(), an.cpart.len(), t.elapsed());
                if std::env::var("CONCH_SA_HOT").is_ok() { an.hot(); }
                for x in &g.panics { println!("   panic {x:?}") }
                for x in &g.unknown_asserts { println!("   assert {x:?}") }
                for x in &g.opaque_calls { println!("   opaque {x:?}") }
                for x in &g.top_branches { println!("   top {x:?}") }
                if list.len() == 1 {
                    let mut ls: Vec<String> = g.labels.iter().map(|l| l.txt.to_string()).collect();
                    ls.sort(); ls.dedup();
                    for l in ls { println!("   L {l}") }
                }
            }
        }
    }
}

pub const ADAPTERS: &[&str] = &["balanced", "single_quoted", "double_quoted", "backticked", "backticked_remove_backslashes"];
fn is_nt_label(l: &str) -> bool { let n = l.split(|c| c == '(' || c == '@').next().unwrap_or(""); NTS.contains(&n) || n == "backticked_stream" }
fn consumes(l: &str) -> bool {
    l == "~" || l == "tok" || l == "chr" || l == "ws" || l.starts_with("tok:") || l.starts_with("chr:") || l.starts_with("ws:")
        || (l.ends_with("→Ok") && ADAPTERS.contains(&l.split(|c| c == '(' || c == '@').next().unwrap_or("")))
        || is_nt_label(l)
}

/// the analysed automaton of one function as a line of JSON
pub fn record(name: &str, an: &An, g: &Graph, ms: u128) -> String {
    use crate::auto::*;
    let mut o = format!("{{\"name\":{},\"states\":{},\"steps\":{},\"ms\":{ms}", js(name), g.states, g.steps);
    if an.cfg.raw_stream_ch { o += ",\"chars\":1" }
    let ad = an.tcx.adt_def(an.token_def);
    o += &format!(",\"kinds\":{}", jl(ad.variants().iter().map(|v| v.name.to_string())));
    o += &format!(",\"texts\":[{}]", g.texts.iter().map(|(k, t)| format!("[{k},{}]", js(t))).collect::<Vec<_>>().join(","));
    let pairs = |s: &std::collections::BTreeSet<(String, String)>| format!("[{}]", s.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","));
    let trip = |s: &std::collections::BTreeSet<(String, String, String)>| format!("[{}]", s.iter().map(|(a, b, c)| format!("[{},{},{}]", js(a), js(b), js(c))).collect::<Vec<_>>().join(","));
    o += &format!(",\"panics\":{},\"asserts\":{},\"tops\":{}", pairs(&g.panics), trip(&g.unknown_asserts), trip(&g.top_branches));
    o += &format!(",\"opaque\":{},\"inlined\":{},\"nt_calls\":{}", jl(g.opaque_calls.iter()), jl(g.inlined.iter()), jl(g.nt_calls.iter()));
    let mut lost: Vec<(String, String)> = vec![];
    for es in &g.edges { for e in es { for l in &e.labs { let t = &g.labels[*l as usize].txt; if t.contains(" lost{") { lost.push((t.to_string(), g.sites[e.site as usize].clone())) } } } }
    lost.sort(); lost.dedup();
    o += &format!(",\"lost\":[{}]", lost.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","));
    let client = |l: &str| matches!(l.split(' ').next().unwrap_or(""), "next" | "peek" | "multipeek" | "peek_next" | "drop" | "buffer" | "tok" | "end" | "content");
    let cyc = if an.cfg.raw_iter || name == "ParserIterator" { idle_cycles(g, &client) } else { idle_cycles(g, &consumes) };
    o += &format!(",\"idle\":[{}]", cyc.iter().map(|(a, b)| format!("[{},{}]", jl(a.iter()), jl(b.iter()))).collect::<Vec<_>>().join(","));
    match build(g) {
        Err(e) => o += &format!(",\"dfa_error\":{}", js(&e)),
        Ok(d) => {
            o += &format!(",\"n\":{},\"final\":{},\"labels\":{},\"edges\":[", d.n, d.fin.map(|x| x.to_string()).unwrap_or("null".into()), jl(d.labels.iter()));
            let mut first = true;
            for (f, t, l, cells, site) in &d.edges {
                if !first { o.push(',') }
                first = false;
                o += &format!("[{f},{t},{l},[{}],{site}]", cells.iter().map(|c| format!("[{}]", c.iter().map(jmask).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
            }
            o += &format!("],\"sites\":{}", jl(g.sites.iter()));
        }
    }
    o.push('}');
    o
}
extern "C" { fn fork() -> i32; fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; }
/// longest first
const HEAVY: &[&str] = &["word_preserve_trailing_whitespace_raw_with_delim", "redirect_heredoc", "case_command", "command_group_internal", "redirect", "for_command", "word_interpolated_raw", "arith_assig", "simple_command"];
pub fn export(tcx: TyCtxt<'_>, f: &str, out: &str) {
    let fnames = crate::func::names();
    let mut list: Vec<&str> = everything(f, &fnames);
    list.sort_by_key(|n| HEAVY.iter().position(|h| h == n).unwrap_or(99));
    let one = |name: &str| {
        let t = std::time::Instant::now();
        if name == "types" { std::fs::write(format!("{out}/{name}.json"), crate::effects::types(tcx)).expect("cannot write the result"); return }
        if name == "effects" { std::fs::write(format!("{out}/{name}.json"), crate::effects::record(tcx)).expect("cannot write the result"); return }
        let res = any(tcx, name);
        let line = match res {
            Err(e) => format!("{{\"name\":{},\"error\":{}}}", crate::auto::js(name), crate::auto::js(&e)),
            Ok((an, g)) => record(name, &an, &g, t.elapsed().as_millis()),
        };
        std::fs::write(format!("{out}/{name}.json"), line).expect("cannot write the result");
    };
    let par = std::env::var("CONCH_SA_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let mut run = 0;
    for name in list {
        if par <= 1 { one(name); continue }
        if run >= par { unsafe { waitpid(-1, std::ptr::null_mut(), 0) }; run -= 1; }
        match unsafe { fork() } {
            0 => {
                // no single analysis may take too long
                let most = std::env::var("CONCH_SA_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(300u32);
                unsafe { alarm(most) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(name)));
                if r.is_err() { let _ = std::fs::write(format!("{out}/{name}.json"), format!("{{\"name\":{},\"error\":\"the analyser failed\"}}", crate::auto::js(name))); }
                unsafe { _exit(0) }
            }
            p if p > 0 => run += 1,
            _ => one(name),
        }
    }
    while run > 0 { unsafe { waitpid(-1, std::ptr::null_mut(), 0) }; run -= 1; }
}
