//! Synthetic canonicalized header blocks whose field values are known by construction.
use crate::util::*;

#[derive(Clone, Debug)]
pub struct Mail {
    pub text: String,
    pub from: String,
    pub from_addr: String,
    pub to: String,
    pub to_addr: String,
    pub subject: String,
    pub message_id: String,
    pub timestamp: String,
    pub body_hash: String,
    /// (start, length) of the value of each field
    pub at: std::collections::BTreeMap<&'static str, (usize, usize)>,
}

const LOCAL: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+=?-^_`{|}~./";
const DOM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";

thread_local! {
    /// how much longer than usual the values get
    static SCALE: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
}
fn word(rng: &mut Rng, set: &str, lo: usize, hi: usize) -> String {
    let b: Vec<char> = set.chars().collect();
    let hi = if rng.chance(50) { hi * SCALE.get() } else { hi };
    (0..rng.range(lo, hi)).map(|_| *rng.pick(&b)).collect()
}
pub fn local(rng: &mut Rng) -> String {
    // '-' is missing from the local class of email_domain
    word(rng, &LOCAL.replace('-', ""), 1, 8)
}
pub fn domain(rng: &mut Rng) -> String {
    let n = rng.range(1, 3);
    let mut v: Vec<String> = (0..n).map(|_| word(rng, DOM, 1, 5)).collect();
    v.push(rng.pick(&["com", "org", "io", "co.uk"]).to_string());
    v.join(".")
}
pub fn address(rng: &mut Rng) -> String {
    format!("{}@{}", local(rng), domain(rng))
}
fn phrase(rng: &mut Rng) -> String {
    let w = ["Alice", "bob", "from:", "to:", "subject:", "re:", "héllo", "日本", "ß", "(x)", "bh=abc;", "t=12;", "message-id:<a@b>", "\"q\"", "a.b", "=?utf-8?q?x?=", "€", "dkim-signature:", "\t", "'", "\\", "$", "^", "[1]", ";", "; h=1", "😀", "x", "İ", "ẞ\u{212a}", "\u{feff}", "ﬁe\u{301}"];
    (0..rng.range(1, 5 * SCALE.get())).map(|_| *rng.pick(&w)).collect::<Vec<_>>().join(" ")
}
/// A display name without angle brackets, line breaks or an address.
fn display(rng: &mut Rng) -> String {
    let w = ["Alice", "Bob B.", "\"Doe, J\"", "héllo", "日本", "Dr", "(x)", "from:", "to:", "😀", "a=b;", "$", "^x", "[1]", "subject:", "İİ", "ẞ\u{212a}", "ﬁe\u{301}"];
    (0..rng.range(1, 3)).map(|_| *rng.pick(&w)).collect::<Vec<_>>().join(" ")
}
/// A mailbox and its address.
pub fn mailbox(rng: &mut Rng) -> (String, String) {
    let a = address(rng);
    match rng.below(5) {
        0 | 1 => (a.clone(), a),
        2 => (format!("<{a}>"), a),
        _ => (format!("{} <{a}>", display(rng)), a),
    }
}

/// Like `mail`, with long values and many headers now and then.
pub fn any_mail(rng: &mut Rng) -> Mail {
    SCALE.set(if rng.chance(20) { rng.range(2, 9) } else { 1 });
    let m = mail(rng);
    SCALE.set(1);
    m
}
pub fn mail(rng: &mut Rng) -> Mail {
    let (from, from_addr) = mailbox(rng);
    let (to, to_addr) = mailbox(rng);
    let subject = phrase(rng);
    let message_id = format!("<{}>", word(rng, "ABCXYZabcxyz0189=@.+_-", 1, 20));
    let timestamp = word(rng, "0123456789", 1, 11);
    let body_hash = word(rng, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/=", 1, 44);
    // dkim tags: v first, b last, the others in any order
    let mut tags = vec![
        "a=rsa-sha256".to_string(),
        format!("d={}", domain(rng)),
        format!("s={}", word(rng, DOM, 1, 4)),
        "h=from:to:subject:date".to_string(),
        format!("t={timestamp}"),
        format!("bh={body_hash}"),
    ];
    if rng.chance(50) {
        tags.push(format!("x={}", word(rng, "0123456789", 3, 9)));
    }
    if rng.chance(40) {
        tags.push("c=relaxed/relaxed".into());
    }
    if rng.chance(30) {
        tags.push(format!("i=@{}", domain(rng)));
    }
    if rng.chance(20) {
        tags.push("q=dns/txt".into());
    }
    rng.shuffle(&mut tags);
    let b = if rng.chance(50) { String::new() } else { word(rng, "abcXYZ019+/=", 1, 30) };
    let dkim = format!("v=1; {}; b={b}", tags.join("; "));

    let mut f: Vec<(&str, String)> = vec![
        ("from", from.clone()),
        ("to", to.clone()),
        ("subject", subject.clone()),
        ("message-id", message_id.clone()),
        ("dkim-signature", dkim.clone()),
    ];
    let extra = [
        "date", "mime-version", "reply-to", "x-from", "x-to", "x-subject", "resent-from", "resent-to", "in-reply-to", "references",
        "x-message-id", "content-type", "list-id", "x-body-hash", "fro", "too", "received", "sender", "cc",
    ];
    for _ in 0..rng.below(4 * SCALE.get()) {
        let n = *rng.pick(&extra);
        let v = match rng.below(5) {
            0 => phrase(rng),
            1 => mailbox(rng).0,
            2 => format!("<{}>", address(rng)),
            3 => "text/plain; charset=\"utf-8\"".to_string(),
            _ => format!("from:{} to:{} subject:x", address(rng), address(rng)),
        };
        f.push((n, v));
    }
    if rng.chance(2) {
        // a header of many kilobytes, as long lists of recipients give
        let a = format!("{}, ", address(rng));
        f.push((*rng.pick(&["cc", "references", "x-received"]), a.repeat(rng.range(1, 6) * 17_000 / a.len())));
    }
    // another signer's header looks like the signature; here it precedes it
    let other = rng.chance(30);
    rng.shuffle(&mut f);
    let i = f.iter().position(|x| x.0 == "dkim-signature").unwrap();
    // known finding: a tag in a header after the signature is taken for its own, so the signature (as in what is signed) comes last then
    let mut last = i + 1 == f.len();
    if rng.chance(30) || f[i + 1..].iter().any(|x| x.1.contains("; t=") || x.1.contains("; bh=")) {
        let x = f.remove(i);
        f.push(x);
        last = true;
    }
    if other {
        let i = f.iter().position(|x| x.0 == "dkim-signature").unwrap();
        let k = rng.below(i + 1);
        f.insert(k, (*rng.pick(&["x-google-dkim-signature", "arc-message-signature"]), "v=1; a=rsa-sha256; t=77; bh=ZZZ; s=q; b=abc".into()));
    }
    let open = last && rng.chance(50);
    let mut text = String::new();
    let mut at = std::collections::BTreeMap::new();
    for (n, v) in &f {
        text += n;
        text += ":";
        let s = text.len();
        match *n {
            "from" => {
                at.insert("from", (s, v.len()));
                at.insert("from_addr", (s + v.rfind(&from_addr).unwrap(), from_addr.len()));
            }
            "to" => {
                at.insert("to", (s, v.len()));
                at.insert("to_addr", (s + v.rfind(&to_addr).unwrap(), to_addr.len()));
            }
            "subject" => {
                at.insert("subject", (s, v.len()));
            }
            "message-id" => {
                at.insert("message_id", (s, v.len()));
            }
            "dkim-signature" => {
                at.insert("timestamp", (s + v.find(&format!("; t={timestamp};")).unwrap() + 4, timestamp.len()));
                at.insert("body_hash", (s + v.find(&format!("; bh={body_hash};")).unwrap() + 5, body_hash.len()));
            }
            _ => {}
        }
        text += v;
        text += "\r\n";
    }
    if open {
        text.truncate(text.len() - 2);
    }
    Mail { text, from, from_addr, to, to_addr, subject, message_id, timestamp, body_hash, at }
}
