/// does the text show the secret, in any usual rendering?
pub fn shows(text: &str, secret: &[u8]) -> bool {
    if secret.len() < 4 {
        return false;
    }
    let lower = text.to_lowercase();
    let dec = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
    let decl = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",\n");
    let hx: String = secret.iter().map(|b| format!("{b:02x}")).collect();
    let hxs = secret.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ");
    let hxc = secret.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":");
    let hxl = secret.iter().map(|b| format!("0x{b:02x}")).collect::<Vec<_>>().join(", ");
    let hxn = secret.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(", ");
    let esc: String = secret.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect();
    let txt = String::from_utf8_lossy(secret).to_string();
    let squeezed: String = text.split_whitespace().collect::<Vec<_>>().join("");
    let decs: String = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
    [txt.as_str(), &esc, &dec, &decl].iter().any(|s| text.contains(s))
        || [hx.as_str(), &hxs, &hxc, &hxl, &hxn].iter().any(|s| lower.contains(s))
        || squeezed.contains(&decs)
}

