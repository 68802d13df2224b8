//! Strict readers for the documents the repository writes, independent of
//! the code that writes them: CSV, XML and boxed tables.

/// RFC 4180 reader. None if a quote is out of place.
pub fn csv(s: &str) -> Option<Vec<Vec<String>>> {
    let mut rows = Vec::new();
    let mut row = Vec::new();
    let mut field = String::new();
    let mut it = s.chars().peekable();
    let mut quoted = false;
    let mut at_start = true;
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    field.push('"');
                } else {
                    quoted = false;
                    if !matches!(it.peek(), None | Some(',' | '\n' | '\r')) {
                        return None;
                    }
                }
            } else {
                field.push(c);
            }
            continue;
        }
        match c {
            '"' if at_start => {
                quoted = true;
                at_start = false;
            }
            '"' => return None,
            ',' => {
                row.push(std::mem::take(&mut field));
                at_start = true;
            }
            '\n' | '\r' => {
                if c == '\r' && it.peek() == Some(&'\n') {
                    it.next();
                }
                row.push(std::mem::take(&mut field));
                rows.push(std::mem::take(&mut row));
                at_start = true;
            }
            c => {
                field.push(c);
                at_start = false;
            }
        }
    }
    if quoted {
        return None;
    }
    if !field.is_empty() || !row.is_empty() {
        row.push(field);
        rows.push(row);
    }
    Some(rows)
}

#[derive(Debug, Default, Clone)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub kids: Vec<Elem>,
}

impl Elem {
    pub fn kid(&self, n: &str) -> Option<&Elem> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn value(&self, n: &str) -> Option<&str> {
        self.kid(n).map(|k| k.text.as_str())
    }
}

/// Well-formedness reader for the subset of XML the repository writes. The
/// declared encoding is ISO-8859-1, so every byte from 80 up is a character.
pub fn xml(s: &str) -> Result<Elem, String> {
    let b = s.as_bytes();
    let mut p = 0;
    if b.starts_with(b"<?xml ") {
        p = find(b, 0, b"?>").ok_or("declaration not closed")? + 2;
    }
    for c in b {
        if *c < 0x20 && !matches!(c, b'\t' | b'\n' | b'\r') {
            return Err(format!("character {c:02X} is not allowed"));
        }
    }
    let mut stack: Vec<Elem> = Vec::new();
    let mut root = None;
    while p < b.len() {
        if b[p] == b'<' {
            let e = find(b, p, b">").ok_or("tag not closed")?;
            let inner = &s[p + 1..e];
            p = e + 1;
            if let Some(n) = inner.strip_prefix('/') {
                let x = stack.pop().ok_or("end tag without start")?;
                if x.name != n.trim_end() {
                    return Err(format!("<{}> closed by </{n}>", x.name));
                }
                match stack.last_mut() {
                    Some(up) => up.kids.push(x),
                    None if root.is_none() => root = Some(x),
                    None => return Err("two roots".into()),
                }
                continue;
            }
            let (body, empty) = match inner.strip_suffix('/') {
                Some(x) => (x, true),
                None => (inner, false),
            };
            let n = body
                .find(|c: char| c.is_ascii_whitespace())
                .unwrap_or(body.len());
            let mut el = Elem {
                name: body[..n].to_string(),
                ..Default::default()
            };
            if el.name.is_empty() || !el.name.bytes().all(|c| c.is_ascii_alphanumeric()) {
                return Err(format!("bad name in <{inner}>"));
            }
            let mut rest = body[n..].trim();
            while !rest.is_empty() {
                let q = rest.find("=\"").ok_or("bad attribute")?;
                let v = &rest[q + 2..];
                let z = v.find('"').ok_or("attribute not closed")?;
                el.attrs.push((rest[..q].to_string(), entities(&v[..z])?));
                rest = v[z + 1..].trim_start();
            }
            if stack.is_empty() && root.is_some() {
                return Err("two roots".into());
            }
            if empty {
                match stack.last_mut() {
                    Some(up) => up.kids.push(el),
                    None => root = Some(el),
                }
            } else {
                stack.push(el);
            }
        } else {
            let e = find(b, p, b"<").unwrap_or(b.len());
            let t = entities(&s[p..e])?;
            match stack.last_mut() {
                Some(x) => x.text.push_str(&t),
                None if t.trim().is_empty() => {}
                None => return Err("text outside the root".into()),
            }
            p = e;
        }
    }
    if let Some(x) = stack.last() {
        return Err(format!("<{}> not closed", x.name));
    }
    root.ok_or_else(|| "no root".into())
}

fn find(b: &[u8], from: usize, what: &[u8]) -> Option<usize> {
    (from..=b.len().checked_sub(what.len())?).find(|i| &b[*i..i + what.len()] == what)
}

fn entities(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let e = rest[i..].find(';').ok_or("bare ampersand")? + i;
        out.push(match &rest[i + 1..e] {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            x => return Err(format!("unknown entity &{x};")),
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    if out.contains("]]>") && s.contains("]]>") {
        return Err("]]> in text".into());
    }
    Ok(out)
}

/// Boxes of a table: per box its rows, per row the cells with all white
/// space removed (cells are wrapped at arbitrary places).
pub fn boxes(s: &str) -> Vec<Vec<Vec<String>>> {
    let mut out = Vec::new();
    let mut rows: Vec<Vec<String>> = Vec::new();
    let mut cur: Vec<String> = Vec::new();
    for l in s.split('\n') {
        match l.chars().next() {
            Some('┌') => {
                rows.clear();
                cur.clear();
            }
            Some('├') => rows.push(std::mem::take(&mut cur)),
            Some('└') => {
                rows.push(std::mem::take(&mut cur));
                out.push(std::mem::take(&mut rows));
            }
            Some('│') => {
                let cells: Vec<&str> = l
                    .strip_prefix('│')
                    .and_then(|x| x.strip_suffix('│'))
                    .unwrap_or("")
                    .split('│')
                    .collect();
                cur.resize(cells.len().max(cur.len()), String::new());
                for (a, c) in cur.iter_mut().zip(cells) {
                    a.extend(c.chars().filter(|c| !c.is_whitespace()));
                }
            }
            _ => {}
        }
    }
    out
}

pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Display width of a line; characters whose width is a matter of opinion
/// are given the benefit of the doubt.
pub fn width(l: &str) -> usize {
    use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
    let sum: usize = l
        .chars()
        .map(|c| UnicodeWidthChar::width(c).unwrap_or(0))
        .sum();
    sum.min(UnicodeWidthStr::width(l))
}

/// Strict reader of the flow charts: boxes with quoted labels, groups that
/// close, links, classes and styles that name boxes which exist. With
/// `joined`, no box and no group may stand alone. `spare` names may be linked
/// without having been drawn.
pub fn diagram(s: &str, joined: bool, spare: &[&str]) -> Result<(), String> {
    let mut boxes: Vec<(String, usize)> = Vec::new();
    let mut links: Vec<(String, String)> = Vec::new();
    let mut named: Vec<String> = Vec::new();
    let mut classes: Vec<String> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    // Open groups, and the group every group stands in.
    let mut open: Vec<usize> = Vec::new();
    let name = |t: &str| {
        let ok = t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !t.is_empty();
        ok.then(|| t.to_string()).ok_or(format!("bad name {t:?}"))
    };
    let mut rest = s.strip_prefix("flowchart TD\n").ok_or("no heading")?;
    while !rest.is_empty() {
        let (line, mut after) = rest.split_once('\n').ok_or("last line not ended")?;
        let l = line.trim_start();
        let word = l.split(' ').next().unwrap_or("");
        let tail = l[word.len()..].trim_start();
        let drawn = |t: &str| t.find("[\"").map(|n| t[..n].to_string());
        if l.is_empty() {
        } else if l == "end" {
            open.pop().ok_or("end of no group")?;
        } else if word == "direction" {
            if open.is_empty() {
                return Err("direction outside a group".into());
            }
        } else if word == "classDef" {
            let (c, look) = tail.split_once(' ').ok_or("empty class")?;
            classes.push(name(c)?);
            if !look.contains(':') {
                return Err(format!("class without look: {l}"));
            }
        } else if word == "class" {
            let (who, c) = tail.split_once(' ').ok_or("class of nothing")?;
            for w in who.split(',') {
                named.push(name(w)?);
            }
            used.push(name(c)?);
        } else if word == "style" {
            let (w, look) = tail.split_once(' ').ok_or("empty style")?;
            named.push(name(w)?);
            if !look.contains(':') {
                return Err(format!("style without look: {l}"));
            }
        } else if let Some(id) = drawn(if word == "subgraph" { tail } else { l }) {
            let id = name(&id)?;
            if boxes.iter().any(|b| b.0 == id) {
                return Err(format!("{id} drawn twice"));
            }
            // The label may run over several lines.
            let at = rest.find("[\"").ok_or("no label")? + 2;
            let n = rest[at..].find('"').ok_or("label not closed")?;
            after = rest[at + n..]
                .strip_prefix("\"]\n")
                .ok_or(format!("label of {id} not closed"))?;
            boxes.push((id, open.last().map_or(usize::MAX, |g| *g)));
            if word == "subgraph" {
                open.push(boxes.len() - 1);
            }
        } else if let Some((a, b)) = l
            .split_once(" --> ")
            .or_else(|| l.split_once(" ~~~ "))
            .or_else(|| l.split_once("~~~"))
        {
            links.push((name(a)?, name(b)?));
        } else {
            return Err(format!("not understood: {l:?}"));
        }
        rest = after;
    }
    if !open.is_empty() {
        return Err("group not closed".into());
    }
    if let Some(c) = used.iter().find(|c| !classes.contains(c)) {
        return Err(format!("no class {c}"));
    }
    let known = |n: &String| boxes.iter().any(|b| b.0 == *n);
    for n in named
        .iter()
        .chain(links.iter().flat_map(|(a, b)| [a, b]))
        .filter(|n| !spare.contains(&n.as_str()))
    {
        if !known(n) {
            return Err(format!("{n} is named but not drawn"));
        }
    }
    if joined {
        // Boxes of one group hang together, and so do all groups.
        for g in boxes
            .iter()
            .map(|b| b.1)
            .collect::<std::collections::BTreeSet<_>>()
        {
            let mut left: Vec<&String> = boxes.iter().filter(|b| b.1 == g).map(|b| &b.0).collect();
            let mut seen = vec![left.remove(0)];
            let mut i = 0;
            while i < seen.len() {
                let here = seen[i];
                left.retain(|n| {
                    let near = links
                        .iter()
                        .any(|(a, b)| a == here && b == *n || b == here && a == *n);
                    if near {
                        seen.push(n);
                    }
                    !near
                });
                i += 1;
            }
            if let Some(n) = left.first() {
                return Err(format!("{n} stands alone"));
            }
        }
    }
    Ok(())
}
