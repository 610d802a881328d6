//! Text-level preparation of the unoptimised module: replace the bodies of environment functions
//! (panic sink, hashing of map keys, ...) and keep chosen functions out of line.
use crate::exec::name_match;

pub fn run(input: &str, rules: &str, output: &str) {
    let src = std::fs::read_to_string(input).unwrap();
    let rules: Vec<(String, String)> = std::fs::read_to_string(rules)
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut p = l.splitn(2, ' ');
            (p.next().unwrap().to_string(), p.next().unwrap().trim().to_string())
        })
        .collect();
    let mut out = String::with_capacity(src.len() + 4096);
    let mut lines = src.split_inclusive('\n');
    let mut used = vec![0usize; rules.len()];
    while let Some(l) = lines.next() {
        if !l.starts_with("define") {
            out.push_str(l);
            continue;
        }
        let at = l.find('@').unwrap();
        let rest = &l[at + 1..];
        let (name, after) = if let Some(r) = rest.strip_prefix('"') {
            let e = r.find('"').unwrap();
            (&r[..e], &r[e + 1..])
        } else {
            let e = rest.find('(').unwrap();
            (&rest[..e], &rest[e..])
        };
        let mut done = false;
        for (i, (k, pat)) in rules.iter().enumerate() {
            if !name_match(name, pat) {
                continue;
            }
            used[i] += 1;
            if k == "noinline" {
                // insert before the first attribute group / brace
                let hd = l.trim_end();
                let pos = hd.rfind(" #").filter(|p| *p > at).unwrap_or(hd.len() - 2);
                let pers = hd.rfind(" personality ").unwrap_or(usize::MAX);
                let pos = pos.min(pers);
                out.push_str(&hd[..pos]);
                out.push_str(" noinline");
                out.push_str(&hd[pos..]);
                out.push('\n');
                done = true;
                break;
            }
            // body replacement
            let hd = l.trim_end();
            out.push_str(hd);
            out.push('\n');
            if k == "panic" {
                // last parameter is the caller location when it is a pointer
                let close = find_close(after);
                let params = &after[1..close];
                let last = split_top(params).into_iter().last().unwrap_or("");
                let arg = last
                    .rsplit(' ')
                    .next()
                    .filter(|x| x.starts_with('%') && last.trim_start().starts_with("ptr"))
                    .unwrap_or("null");
                out.push_str(&format!("  call void @__engine_panic(ptr {})\n  unreachable\n", arg));
            } else {
                let before = l[..at].trim_end();
                let ty = if before.ends_with('}') {
                    let b = before.rfind('{').unwrap();
                    before[b..].to_string()
                } else {
                    before.rsplit(' ').next().unwrap().to_string()
                };
                if ty == "void" {
                    out.push_str("  ret void\n");
                } else {
                    out.push_str(&format!("  ret {} zeroinitializer\n", ty));
                }
            }
            out.push_str("}\n");
            // skip original body
            for b in lines.by_ref() {
                if b.starts_with('}') {
                    break;
                }
            }
            done = true;
            break;
        }
        if !done {
            out.push_str(l);
        }
    }
    if !src.contains("declare void @__engine_panic") {
        out.push_str("\ndeclare void @__engine_panic(ptr)\n");
    }
    for (i, (k, p)) in rules.iter().enumerate() {
        if used[i] == 0 {
            eprintln!("prep: rule unused: {} {}", k, p);
        }
    }
    std::fs::write(output, out).unwrap();
}

fn find_close(s: &str) -> usize {
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
    }
    s.len()
}
fn split_top(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut d = 0;
    let mut b = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            ',' if d == 0 => {
                v.push(s[b..i].trim());
                b = i + 1;
            }
            _ => {}
        }
    }
    v.push(s[b..].trim());
    v
}
