//! The contract files: sections introduced by lines starting with '@'.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct LoopContract {
    pub name: Option<String>,
    pub mode: String,
    pub inv: String,
    pub start: Option<String>,
    pub end: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct FnContract {
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: Vec<Option<LoopContract>>,
    pub nloops: Option<usize>,
    pub start: Option<String>,
    pub end: Option<String>,
    pub tail: Option<String>,
    pub bind: Option<String>,
    pub stmts: Vec<(String, bool, String)>,
    pub closures: Vec<String>,
    pub calls: BTreeMap<String, String>,
    pub attrs: Vec<String>,
    pub trusted: bool,
    pub omit: bool,
    pub drop: bool,
    pub eq: Option<String>,
    pub note: String,
}
#[derive(Clone, Debug, Default)]
pub struct TypeContract {
    pub derive: Option<Vec<String>>,
    pub needs: Vec<String>,
    pub attr: String,
    pub after: String,
}
pub struct Contracts {
    pub fns: BTreeMap<(String, String), FnContract>,
    pub types: BTreeMap<(String, String), TypeContract>,
    pub raws: BTreeMap<(String, String), String>,
    pub erase: Vec<(String, String, Vec<String>)>,
}
impl Contracts {
    pub fn raw(&self, m: &str, k: &str) -> Option<String> {
        self.raws.get(&(m.to_string(), k.to_string())).cloned()
    }
    pub fn load(dir: &Path) -> Contracts {
        let mut c = Contracts { fns: BTreeMap::new(), types: BTreeMap::new(), raws: BTreeMap::new(), erase: vec![] };
        let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap();
            c.parse(&text, &f.display().to_string());
        }
        c
    }
    fn parse(&mut self, text: &str, file: &str) {
        let mut module = String::new();
        let mut cur: (u8, String) = (0, String::new()); // 1 fn, 2 type
        let mut lines = text.lines().enumerate().peekable();
        while let Some((no, l)) = lines.next() {
            if !l.starts_with('@') {
                if !l.trim().is_empty() && !l.starts_with('#') {
                    panic!("{}:{}: text outside a section", file, no + 1);
                }
                continue;
            }
            let (cmd, arg) = match l[1..].split_once(' ') {
                Some((a, b)) => (a, b.trim().to_string()),
                None => (l[1..].trim(), String::new()),
            };
            let mut body = String::new();
            while let Some((_, n)) = lines.peek() {
                if n.starts_with('@') {
                    break;
                }
                if !n.starts_with('#') || n.starts_with("#[") || n.starts_with("#!") {
                    body.push_str(n);
                    body.push('\n');
                }
                lines.next();
            }
            let m = module.clone();
            match cmd {
                "module" => module = arg,
                "top" => {
                    self.raws.entry((m, "top".into())).or_default().push_str(&body);
                }
                // a ghost bound: "@bound Log for LogReader : <R: X>", "@bound trait Log : : X"
                "bound" => {
                    let (a, b) = arg.split_once(" : ").unwrap();
                    self.raws.insert((m, format!("bound {}", a.trim())), b.trim().to_string());
                }
                "impl" | "trait" => {
                    self.raws.entry((m, format!("{} {}", cmd, arg))).or_default().push_str(&body);
                }
                "type" => {
                    cur = (2, arg.clone());
                    self.types.entry((m, arg)).or_default();
                }
                "omit" | "drop" => {
                    // names, then a reason after ':'
                    let (names, why) = arg.split_once(" : ").unwrap_or((arg.as_str(), ""));
                    for n in names.split(" | ") {
                        let f = self.fns.entry((m.clone(), n.trim().to_string())).or_default();
                        if cmd == "omit" {
                            f.omit = true;
                        } else {
                            f.drop = true;
                        }
                        f.note = why.to_string();
                    }
                }
                // a type or function whose mutable references are taken as shared ones:
                // "@erase Group::iter_mut self", "@erase Database::find_entries_mut entries"
                "erase" => {
                    let w: Vec<String> = arg.split_whitespace().map(|s| s.to_string()).collect();
                    self.erase.push((m, w[0].clone(), w[1..].to_vec()));
                }
                "fn" => {
                    cur = (1, arg.clone());
                    self.fns.entry((m, arg)).or_default();
                }
                _ => {
                    let what = format!("{}:{}: @{}", file, no + 1, cmd);
                    if cur.0 == 2 {
                        let t = self.types.get_mut(&(m, cur.1.clone())).unwrap();
                        match cmd {
                            "derive" => t.derive = Some(arg.split_whitespace().map(|s| s.to_string()).collect()),
                            "needs" => t.needs = arg.split_whitespace().map(|s| s.to_string()).collect(),
                            "attr" => t.attr = arg,
                            "after" => t.after.push_str(&body),
                            _ => panic!("{}", what),
                        }
                        continue;
                    }
                    let f = self.fns.get_mut(&(m, cur.1.clone())).unwrap_or_else(|| panic!("{}", what));
                    let num = |s: &str| s.split_whitespace().next().unwrap_or("0").parse::<usize>().unwrap_or_else(|_| panic!("{}", what));
                    match cmd {
                        "props" => f.props.extend(arg.split_whitespace().map(|s| s.to_string())),
                        "ret" => f.ret = Some(arg),
                        "spec" => f.spec.push_str(&body),
                        "start" => f.start = Some(body),
                        "end" => f.end = Some(body),
                        "tail" => f.tail = Some(body),
                        "bind" => f.bind = Some(body),
                        "before" => f.stmts.push((arg, true, body)),
                        "after" => f.stmts.push((arg, false, body)),
                        "closure" => f.closures.push(body.trim().to_string()),
                        "call" => {
                            let (a, b) = arg.split_once(' ').unwrap_or_else(|| panic!("{}", what));
                            f.calls.insert(a.into(), b.trim().into());
                        }
                        "attr" => f.attrs.push(arg),
                        "trusted" => {
                            f.trusted = true;
                            f.note = arg;
                        }
                        "note" => f.note = arg,
                        "eq" => f.eq = Some(arg),
                        "loops" => f.nloops = Some(num(&arg)),
                        "loop" | "loopstart" | "loopend" => {
                            let n = num(&arg);
                            while f.loops.len() <= n {
                                f.loops.push(None);
                            }
                            let l = f.loops[n].get_or_insert_with(Default::default);
                            match cmd {
                                "loop" => {
                                    let w: Vec<&str> = arg.split_whitespace().collect();
                                    for x in &w[1..] {
                                        if let Some(mo) = x.strip_prefix('!') {
                                            l.mode = mo.to_string();
                                        } else {
                                            l.name = Some(x.to_string());
                                        }
                                    }
                                    l.inv.push_str(&body);
                                }
                                "loopstart" => l.start = Some(body),
                                _ => l.end = Some(body),
                            }
                        }
                        _ => panic!("{}", what),
                    }
                }
            }
        }
    }
}
