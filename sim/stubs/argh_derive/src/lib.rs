use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Type};

#[derive(Default)]
struct Attr {
    kind: String,
    short: Option<char>,
    long: Option<String>,
    name: Option<String>,
    default: Option<String>,
}

fn attrs(list: &[syn::Attribute]) -> Attr {
    let mut a = Attr::default();
    for at in list.iter().filter(|a| a.path().is_ident("argh")) {
        at.parse_nested_meta(|m| {
            let id = m.path.get_ident().unwrap().to_string();
            match id.as_str() {
                "option" | "switch" | "subcommand" | "positional" => a.kind = id,
                "short" => a.short = Some(m.value()?.parse::<syn::LitChar>()?.value()),
                "long" => a.long = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                "name" => a.name = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                "default" => a.default = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                _ => {
                    if let Ok(v) = m.value() {
                        v.parse::<syn::Lit>()?;
                    }
                }
            }
            Ok(())
        })
        .unwrap();
    }
    a
}

fn outer(ty: &Type) -> (String, Option<Type>) {
    if let Type::Path(p) = ty {
        let s = p.path.segments.last().unwrap();
        let inner = match &s.arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| match a {
                syn::GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            }),
            _ => None,
        };
        return (s.ident.to_string(), inner);
    }
    (String::new(), None)
}

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let top = attrs(&input.attrs);
    let cmd = match &top.name {
        Some(n) => quote!(Some(#n)),
        None => quote!(None),
    };
    let body = match &input.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let vid = &v.ident;
                let ty = &v.fields.iter().next().unwrap().ty;
                quote!(if Some(cmd.as_str()) == <#ty as ::argh::FromArgs>::command_name() {
                    return Ok(#name::#vid(<#ty as ::argh::FromArgs>::from_args(&args[1..])?));
                })
            });
            quote!(
                let Some(cmd) = args.first() else { return Err("missing subcommand".into()) };
                #(#arms)*
                Err(format!("unknown subcommand {cmd}"))
            )
        }
        Data::Struct(s) => {
            let Fields::Named(fields) = &s.fields else { panic!("named fields") };
            let mut decl = vec![];
            let mut parse = vec![];
            let mut build = vec![];
            for f in &fields.named {
                let id = f.ident.as_ref().unwrap();
                let a = attrs(&f.attrs);
                let long = format!("--{}", a.long.clone().unwrap_or_else(|| id.to_string().replace('_', "-")));
                let short = a.short.map(|c| format!("-{c}")).unwrap_or_default();
                let ty = &f.ty;
                match a.kind.as_str() {
                    "subcommand" => {
                        build.push(quote!(#id: <#ty as ::argh::FromArgs>::from_args(&args[__i..])?));
                        parse.push(quote!(if !args[__i].starts_with('-') { break; }));
                    }
                    "switch" => {
                        decl.push(quote!(let mut #id = false;));
                        parse.push(quote!(if args[__i] == #long || args[__i] == #short { #id = true; __i += 1; continue; }));
                        build.push(quote!(#id));
                    }
                    _ => {
                        let (o, inner) = outer(ty);
                        decl.push(quote!(let mut #id: Vec<String> = vec![];));
                        parse.push(quote!(if args[__i] == #long || args[__i] == #short {
                            let v = args.get(__i + 1).ok_or("missing value")?.clone();
                            #id.push(v); __i += 2; continue;
                        }));
                        match o.as_str() {
                            "Vec" => build.push(quote!(#id: {
                                let mut v: Vec<#inner> = vec![];
                                for s in &#id { v.push(s.parse::<#inner>().map_err(|_| "bad value".to_string())?); }
                                v
                            })),
                            "Option" => build.push(quote!(#id: match #id.last() {
                                Some(s) => Some(s.parse::<#inner>().map_err(|_| "bad value".to_string())?),
                                None => None,
                            })),
                            _ => {
                                let none = match &a.default {
                                    Some(d) => {
                                        let e: syn::Expr = syn::parse_str(d).unwrap();
                                        quote!(#e)
                                    }
                                    None => quote!(return Err("missing option".into())),
                                };
                                build.push(quote!(#id: match #id.last() {
                                    Some(s) => s.parse::<#ty>().map_err(|_| "bad value".to_string())?,
                                    None => #none,
                                }));
                            }
                        }
                    }
                }
            }
            quote!(
                #(#decl)*
                let mut __i = 0;
                while __i < args.len() {
                    #(#parse)*
                    return Err(format!("unrecognized argument {}", args[__i]));
                }
                Ok(#name { #(#build),* })
            )
        }
        _ => panic!(),
    };
    quote!(
        impl ::argh::FromArgs for #name {
            #[allow(unreachable_code, unused_mut, clippy::all)]
            fn from_args(args: &[String]) -> Result<Self, String> { #body }
            fn command_name() -> Option<&'static str> { #cmd }
        }
    )
    .into()
}
