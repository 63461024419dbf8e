//! From an explored graph to the minimal automaton of its event traces.
use crate::interp::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};

pub struct Dfa {
    pub labels: Vec<String>,
    /// (from, to, label, look-ahead cells, site)
    pub edges: Vec<(u32, u32, u32, Vec<Vec<Mask>>, u32)>,
    pub n: usize,
    pub fin: Option<u32>,
    pub start: u32,
}

fn eof(m: &Mask) -> bool { *m == Mask::one(EOF_TOK) || *m == Mask::one(EOF_CH) }

pub fn build(g: &Graph) -> Result<Dfa, String> {
    // labels, without look-ahead; and their look-ahead vectors
    let mut ltxt: Vec<String> = vec![];
    let mut lix: HashMap<String, u32> = HashMap::new();
    let mut lab: Vec<(u32, Vec<Mask>)> = vec![];
    for l in &g.labels {
        let mut t = l.txt.to_string();
        if let Some(i) = t.find(" lost{") { t.truncate(i) }
        let ix = *lix.entry(t.clone()).or_insert_with(|| { ltxt.push(t); ltxt.len() as u32 - 1 });
        let mut la = l.la.clone();
        if let Some(i) = la.iter().position(eof) { la.truncate(i + 1) }
        lab.push((ix, la));
    }
    // letters: a partition of the look-ahead space of every label into boxes
    let full = Mask([u64::MAX; 4]);
    let mut lets: Vec<(u32, Vec<Mask>)> = vec![];
    let mut of: Vec<Vec<u32>> = vec![vec![]; lab.len()];
    let mut groups: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for (i, (ix, _)) in lab.iter().enumerate() { groups.entry(*ix).or_default().push(i as u32) }
    for (ix, mem) in groups {
        let mut work: Vec<(Vec<Mask>, Vec<u32>)> = vec![(vec![], mem)];
        while let Some((pre, mem)) = work.pop() {
            let k = pre.len();
            let more = mem.iter().any(|m| lab[*m as usize].1.len() > k) && !pre.last().map_or(false, eof);
            if !more {
                let l = lets.len() as u32;
                lets.push((ix, pre));
                for m in mem { of[m as usize].push(l) }
                if lets.len() > 100_000 { return Err("too many look-ahead cells".into()) }
                continue;
            }
            let mut cells = vec![full];
            for m in &mem {
                if let Some(x) = lab[*m as usize].1.get(k) {
                    let mut n = vec![];
                    for c in &cells {
                        let (a, b) = (c.and(x), c.sub(x));
                        if !a.is_empty() { n.push(a) }
                        if !b.is_empty() { n.push(b) }
                    }
                    cells = n;
                }
            }
            for c in cells {
                let sub: Vec<u32> = mem.iter().copied().filter(|m| lab[*m as usize].1.get(k).map_or(true, |x| c.subset(x))).collect();
                if sub.is_empty() { continue }
                let mut p = pre.clone();
                p.push(c);
                work.push((p, sub));
            }
        }
    }
    // nfa
    let n0 = g.edges.len();
    let mut eps: Vec<Vec<u32>> = vec![vec![]; n0];
    let mut tr: Vec<Vec<(u32, u32, u32)>> = vec![vec![]; n0]; // (label index of `lab`, to, site)
    for (i, es) in g.edges.iter().enumerate() {
        for e in es {
            let labs: Vec<u32> = e.labs.iter().copied().filter(|l| &*g.labels[*l as usize].txt != "~").collect();
            if labs.is_empty() { if e.to != i { eps[i].push(e.to as u32) } continue }
            let mut cur = i;
            for (k, l) in labs.iter().enumerate() {
                let to = if k + 1 == labs.len() { e.to } else { eps.push(vec![]); tr.push(vec![]); eps.len() - 1 };
                tr[cur].push((*l, to as u32, e.site));
                cur = to;
            }
        }
    }
    let n = eps.len();
    // "useful" states carry transitions; closure is computed on them
    let mut seen = vec![0u32; n];
    let mut stamp = 0u32;
    let mut closure = |init: &[u32]| -> Vec<u32> {
        stamp += 1;
        let mut st: Vec<u32> = init.to_vec();
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if seen[x as usize] == stamp { continue }
            seen[x as usize] = stamp;
            if !tr[x as usize].is_empty() || x == 0 { out.push(x) }
            for y in &eps[x as usize] { if seen[*y as usize] != stamp { st.push(*y) } }
        }
        out.sort_unstable();
        out
    };
    let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
    let mut sets: Vec<Vec<u32>> = vec![];
    let mut dt: Vec<Vec<(u32, u32, u32)>> = vec![];
    let s0 = closure(&[1]);
    ids.insert(s0.clone(), 0);
    sets.push(s0);
    let mut i = 0;
    while i < sets.len() {
        let mut by: BTreeMap<u32, (Vec<u32>, u32)> = BTreeMap::new();
        for x in &sets[i] {
            for (l, to, site) in &tr[*x as usize] {
                for le in &of[*l as usize] {
                    let e = by.entry(*le).or_insert((vec![], *site));
                    e.0.push(*to);
                }
            }
        }
        let mut memo: HashMap<Vec<u32>, u32> = HashMap::new();
        let mut out = vec![];
        for (le, (mut v, site)) in by {
            v.sort_unstable(); v.dedup();
            let id = if let Some(id) = memo.get(&v) { *id } else {
                let c = closure(&v);
                let l = sets.len() as u32;
                let id = *ids.entry(c.clone()).or_insert(l);
                if id == l { sets.push(c) }
                memo.insert(v, id);
                id
            };
            out.push((le, id, site));
        }
        dt.push(out);
        if sets.len() > 60000 { return Err("trace automaton too large".into()) }
        i += 1;
    }
    // minimize (Moore)
    let m = sets.len();
    let mut class: Vec<u32> = sets.iter().map(|s| if s.binary_search(&0).is_ok() { 1 } else { 0 }).collect();
    let mut ncls = 0;
    loop {
        let mut ix: HashMap<(u32, Vec<(u32, u32)>), u32> = HashMap::new();
        let mut next = vec![0u32; m];
        for i in 0..m {
            let sig: Vec<(u32, u32)> = dt[i].iter().map(|(l, t, _)| (*l, class[*t as usize])).collect();
            let l = ix.len() as u32;
            next[i] = *ix.entry((class[i], sig)).or_insert(l);
        }
        let k = ix.len();
        class = next;
        if k == ncls { break }
        ncls = k;
    }
    // states that cannot finish (all paths end inside a panic) stay: their events count
    let mut rep: Vec<Option<usize>> = vec![None; ncls];
    for i in 0..m { if rep[class[i] as usize].is_none() { rep[class[i] as usize] = Some(i) } }
    // number the states in breadth-first order
    let mut order: Vec<u32> = vec![class[0]];
    let mut num: HashMap<u32, u32> = HashMap::from([(class[0], 0)]);
    let mut i = 0;
    while i < order.len() {
        let r = rep[order[i] as usize].unwrap();
        let mut es: Vec<_> = dt[r].iter().map(|(l, t, _)| (&ltxt[lets[*l as usize].0 as usize], &lets[*l as usize].1, class[*t as usize])).collect();
        es.sort();
        for (_, _, c) in es { if !num.contains_key(&c) { num.insert(c, order.len() as u32); order.push(c) } }
        i += 1;
    }
    let mut edges = vec![];
    let mut fin = None;
    for (i, c) in order.iter().enumerate() {
        let r = rep[*c as usize].unwrap();
        if sets[r].binary_search(&0).is_ok() { fin = Some(i as u32) }
        let mut by: BTreeMap<(u32, u32), (Vec<Vec<Mask>>, u32)> = BTreeMap::new();
        for (l, t, site) in &dt[r] {
            let (ix, v) = &lets[*l as usize];
            let e = by.entry((num[&class[*t as usize]], *ix)).or_insert((vec![], *site));
            e.0.push(v.clone());
        }
        for ((t, ix), (v, site)) in by { edges.push((i as u32, t, ix, v, site)); }
    }
    Ok(Dfa { labels: ltxt, edges, n: order.len(), fin, start: 0 })
}

/// cycles of the graph along which nothing is consumed: the calls on them
pub fn idle_cycles(g: &Graph, consumes: &dyn Fn(&str) -> bool) -> Vec<(Vec<String>, Vec<String>)> {
    let n = g.edges.len();
    let cons: Vec<bool> = g.labels.iter().map(|l| consumes(&l.txt)).collect();
    let adj: Vec<Vec<(usize, &Edge)>> = g.edges.iter().map(|es| es.iter().filter(|e| !e.labs.iter().any(|l| cons[*l as usize])).map(|e| (e.to, e)).collect()).collect();
    // Tarjan, iterative
    let mut index = vec![u32::MAX; n];
    let mut low = vec![0u32; n];
    let mut on = vec![false; n];
    let mut comp = vec![u32::MAX; n];
    let (mut ctr, mut nc) = (0u32, 0u32);
    let mut stack = vec![];
    for r in 0..n {
        if index[r] != u32::MAX { continue }
        let mut call: Vec<(usize, usize)> = vec![(r, 0)];
        while let Some((v, i)) = call.pop() {
            if i == 0 { index[v] = ctr; low[v] = ctr; ctr += 1; stack.push(v); on[v] = true; }
            if i < adj[v].len() {
                let w = adj[v][i].0;
                call.push((v, i + 1));
                if index[w] == u32::MAX { call.push((w, 0)); }
                else if on[w] { low[v] = low[v].min(index[w]); }
            } else {
                if low[v] == index[v] {
                    loop { let w = stack.pop().unwrap(); on[w] = false; comp[w] = nc; if w == v { break } }
                    nc += 1;
                }
                if let Some((p, _)) = call.last() { low[*p] = low[*p].min(low[v]); }
            }
        }
    }
    let mut out: BTreeMap<u32, (Vec<String>, Vec<String>)> = BTreeMap::new();
    for v in 0..n {
        for (w, e) in &adj[v] {
            if comp[v] == comp[*w] && (v != *w || *w == v) {
                let o = out.entry(comp[v]).or_default();
                for l in &e.labs { o.0.push(g.labels[*l as usize].txt.to_string()); }
                o.1.push(g.sites[e.site as usize].clone());
            }
        }
    }
    out.into_values().map(|(mut a, mut b)| { a.sort(); a.dedup(); b.sort(); b.dedup(); (a, b) }).collect()
}

pub fn js(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jl<T: AsRef<str>>(x: impl Iterator<Item = T>) -> String { format!("[{}]", x.map(|s| js(s.as_ref())).collect::<Vec<_>>().join(",")) }
pub fn jmask(m: &Mask) -> String {
    let mut s: String = m.0.iter().rev().map(|x| format!("{x:016x}")).collect();
    while s.len() > 1 && s.starts_with('0') { s.remove(0); }
    format!("\"{s}\"")
}
