//! The public shape of generated code: what a user of the types can see.
use crate::json::{codes, J};
use syn::{Fields, Item, Type, Visibility};

/// Boxes around a type and its name.
fn ty(t: &Type) -> (usize, String) {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            if s.ident == "Box" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        let (n, t) = ty(t);
                        return (n + 1, t);
                    }
                }
            }
            return (0, s.ident.to_string());
        }
    }
    if let Type::Paren(p) = t {
        return ty(&p.elem);
    }
    (0, "?".to_owned())
}

fn part(name: String, t: &Type) -> J {
    let (b, t) = ty(t);
    obj! {n: codes(&name), b: b, ty: t}
}

/// Types by name; Err if the text is no Rust file.
pub fn of_code(text: &str) -> Result<J, String> {
    let file: syn::File = syn::parse_str(text).map_err(|e| e.to_string())?;
    let mut types = std::collections::BTreeMap::new();
    let mut chars: Vec<String> = Vec::new();
    for item in &file.items {
        match item {
            Item::Struct(s) if matches!(s.vis, Visibility::Public(_)) => {
                let (k, fs) = match &s.fields {
                    Fields::Unit => ("unit", Vec::new()),
                    Fields::Unnamed(u) => (
                        "tuple",
                        u.unnamed.iter().enumerate().map(|(i, f)| part(i.to_string(), &f.ty)).collect(),
                    ),
                    Fields::Named(n) => (
                        "struct",
                        n.named.iter().map(|f| part(f.ident.as_ref().unwrap().to_string(), &f.ty)).collect(),
                    ),
                };
                types.insert(s.ident.to_string(), obj! {k: k, fs: fs});
            }
            Item::Enum(e) if matches!(e.vis, Visibility::Public(_)) => {
                let fs: Vec<J> = e
                    .variants
                    .iter()
                    .map(|v| match &v.fields {
                        Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                            part(v.ident.to_string(), &u.unnamed[0].ty)
                        }
                        _ => obj! {n: codes(&v.ident.to_string()), b: 0_usize, ty: "?"},
                    })
                    .collect();
                types.insert(e.ident.to_string(), obj! {k: "enum", fs: fs});
            }
            Item::Type(t) if matches!(t.vis, Visibility::Public(_)) => {
                types.insert(t.ident.to_string(), obj! {k: "alias", fs: vec![part(String::new(), &t.ty)]});
            }
            Item::Impl(i) => {
                if let (Some((_, tr, _)), (_, target)) = (&i.trait_, ty(&i.self_ty)) {
                    if target == "char" {
                        if let Some(s) = tr.segments.last() {
                            if s.ident == "From" {
                                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                                        chars.push(ty(t).1);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    let chars = J::Arr(chars.iter().map(|c| J::from(c.as_str())).collect());
    let defs = defined(&file.items);
    let defs = J::Arr(defs.iter().map(|c| J::from(c.as_str())).collect());
    Ok(obj! {types: J::Obj(types), chars: chars, defs: defs})
}

/// Every type defined, as often as it is defined.
fn defined(items: &[Item]) -> Vec<String> {
    items
        .iter()
        .filter_map(|item| match item {
            Item::Struct(s) => Some(s.ident.to_string()),
            Item::Enum(e) => Some(e.ident.to_string()),
            Item::Type(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect()
}

/// Code with a name for its root: what it defines, the root last, and whether the code is otherwise
/// that without a name.
pub fn of_named(text: &str, plain: &str) -> Result<J, String> {
    use quote::ToTokens;
    let file: syn::File = syn::parse_str(text).map_err(|e| e.to_string())?;
    let plain: syn::File = syn::parse_str(plain).map_err(|e| e.to_string())?;
    let split = |f: &syn::File| -> Option<(Vec<String>, String, String)> {
        let (last, rest) = f.items.split_last()?;
        match last {
            Item::Type(t) if matches!(t.vis, Visibility::Public(_)) => Some((
                rest.iter().map(|i| i.to_token_stream().to_string()).collect(),
                t.ident.to_string(),
                t.ty.to_token_stream().to_string(),
            )),
            _ => None,
        }
    };
    let (a, b) = (split(&file), split(&plain));
    let root = a.as_ref().map(|a| a.1.clone()).unwrap_or_default();
    let same = match (a, b) {
        (Some(a), Some(b)) => a.0 == b.0 && a.2 == b.2,
        _ => false,
    };
    let defs = J::Arr(defined(&file.items).iter().map(|c| J::from(c.as_str())).collect());
    Ok(obj! {st: "ok", root: root, same: J::Bool(same), defs: defs})
}
