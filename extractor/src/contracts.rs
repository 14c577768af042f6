//! Contract files: directives `#@ ...` followed by raw Verus text.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: String,
    pub attrs: String,
    pub spec: String,
    pub start: String,
    pub end: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub assoc: Vec<String>,
    /// only the contract itself is woven in: no hints, no invariants
    pub nohints: bool,
    /// the body is verified in stages, see Stages
    pub stages: Option<Stages>,
}
/// The statements after the one that calls `from`, up to and including the first that calls `to`, form stage 1, the
/// following ones up to the next call of `to` stage 2, and so on, `n` in all.  Each becomes the body of a loop that
/// runs once, so that it is verified on its own against `inv` (in which $k is the stage and $j = $k - 1).
#[derive(Default, Clone, Debug)]
pub struct Stages {
    pub from: String,
    pub to: String,
    pub n: usize,
    pub inv: String,
    pub start: String,
}
#[derive(Default, Clone, Debug)]
pub struct LoopC {
    /// expected loop kind: "loop", "while", "for-range", "for-ref"; empty = any
    pub kind: String,
    pub inv: String,
    pub start: String,
    pub end: String,
    pub after: String,
    pub before: String,
}
#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub modules: BTreeMap<String, String>,
    /// text inserted at the top of a trait / impl body, keyed by header
    pub bodies: BTreeMap<String, String>,
    /// text inserted directly after a trait or type item
    pub after: BTreeMap<String, String>,
    /// `#@ supertrait Name: bounds`
    pub supers: BTreeMap<String, String>,
    /// `#@ bucket <type> <group>`: the readers and writers of the type go to the sub-modules rs_group, ra_group, ws_group, wa_group
    pub buckets: BTreeMap<String, String>,
    /// items not extracted, with the reason
    pub drops: BTreeMap<String, String>,
    pub skipmods: Vec<String>,
    /// `#@ parts rs ws`: of the Parquet readers and writers only these (sync/async) are extracted; the others belong to another run
    pub parts: Vec<String>,
    /// `#@ known a b`: names of the functions that have contracts or are known to need none; a call of any other is inlined
    pub known: std::collections::BTreeSet<String>,
}

impl Contracts {
    pub fn module(&self, m: &str) -> Option<&String> {
        self.modules.get(m)
    }
    /// text put at the start of module `m`: `*`, and `p/*` for the longest p that is m or a parent of m
    pub fn prelude(&self, m: &str) -> String {
        let s = self.modules.get("*").cloned().unwrap_or_default();
        let best = self.modules.iter().filter(|(k, _)| k.strip_suffix("/*").map_or(false, |p| m == p || m.starts_with(&format!("{p}::")))).max_by_key(|(k, _)| k.len());
        s + best.map_or("", |(_, v)| v.as_str())
    }
    pub fn parse(text: &str) -> Contracts {
        let mut c = Contracts::default();
        let mut fun = String::new();
        let mut lp = 0usize;
        // where raw text goes
        let mut tgt = String::new();
        let mut key = String::new();
        for line in text.lines() {
            let l = line.trim();
            if let Some(d) = l.strip_prefix("#@") {
                let d = d.trim();
                let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim().to_string();
                match cmd {
                    "fn" => {
                        fun = rest.clone();
                        let e = c.fns.entry(rest).or_default();
                        if e.ret.is_empty() {
                            e.ret = "r".into();
                        }
                        tgt = "spec".into();
                    }
                    "ret" => c.fns.get_mut(&fun).unwrap().ret = rest,
                    "attr" => {
                        let e = c.fns.get_mut(&fun).unwrap();
                        e.attrs.push_str(&rest);
                        e.attrs.push('\n');
                    }
                    "nohints" => c.fns.get_mut(&fun).unwrap().nohints = true,
                    "alloc" => {
                        c.fns.get_mut(&fun).unwrap().assoc.push(String::new());
                        tgt = cmd.into();
                    }
                    "stages" => {
                        let w: Vec<&str> = rest.split_whitespace().collect();
                        c.fns.get_mut(&fun).unwrap().stages = Some(Stages { from: w[0].into(), to: w[1].into(), n: w[2].parse().unwrap(), ..Default::default() });
                        tgt = "stinv".into();
                    }
                    "stagestart" => tgt = "ststart".into(),
                    "start" | "end" | "spec" => tgt = cmd.into(),
                    "loop" => {
                        let (n, kind) = rest.split_once(' ').unwrap_or((&rest, ""));
                        lp = n.parse().unwrap();
                        let e = c.fns.get_mut(&fun).unwrap().loops.entry(lp).or_default();
                        e.kind = kind.trim().to_string();
                        tgt = "inv".into();
                    }
                    "loopstart" => tgt = "lstart".into(),
                    "loopend" => tgt = "lend".into(),
                    "loopafter" => tgt = "lafter".into(),
                    "loopbefore" => tgt = "lbefore".into(),
                    "mod" => {
                        key = rest;
                        tgt = "mod".into();
                    }
                    "body" => {
                        key = rest;
                        tgt = "body".into();
                    }
                    "after" => {
                        key = rest;
                        tgt = "after".into();
                    }
                    "super" => {
                        let (a, b) = rest.split_once(' ').unwrap();
                        c.supers.insert(a.into(), b.into());
                        tgt.clear();
                    }
                    "bucket" => {
                        let (a, b) = rest.rsplit_once(' ').unwrap();
                        c.buckets.insert(a.trim().into(), b.into());
                        tgt.clear();
                    }
                    "drop" => {
                        let (a, b) = rest.split_once(" -- ").unwrap();
                        c.drops.insert(a.trim().into(), b.trim().into());
                        tgt.clear();
                    }
                    "parts" => {
                        c.parts.extend(rest.split_whitespace().map(String::from));
                        tgt.clear();
                    }
                    "known" => {
                        c.known.extend(rest.split_whitespace().map(String::from));
                        tgt.clear();
                    }
                    "skipmod" => {
                        c.skipmods.push(rest);
                        tgt.clear();
                    }
                    "#" => {}
                    _ => panic!("contract directive: {line}"),
                }
                continue;
            }
            let dst: &mut String = match tgt.as_str() {
                "" => continue,
                "mod" => c.modules.entry(key.clone()).or_default(),
                "body" => c.bodies.entry(key.clone()).or_default(),
                "after" => c.after.entry(key.clone()).or_default(),
                t => {
                    let e = c.fns.get_mut(&fun).unwrap();
                    match t {
                        "alloc" => e.assoc.last_mut().unwrap(),
                        "stinv" => &mut e.stages.as_mut().unwrap().inv,
                        "ststart" => &mut e.stages.as_mut().unwrap().start,
                        "spec" => &mut e.spec,
                        "start" => &mut e.start,
                        "end" => &mut e.end,
                        _ => {
                            let l = e.loops.get_mut(&lp).unwrap();
                            match t {
                                "inv" => &mut l.inv,
                                "lstart" => &mut l.start,
                                "lend" => &mut l.end,
                                "lbefore" => &mut l.before,
                                _ => &mut l.after,
                            }
                        }
                    }
                }
            };
            dst.push_str(line);
            dst.push('\n');
        }
        c
    }
}
