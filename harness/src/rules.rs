//! Words for the evidence files.

pub fn made() -> &'static str {
    "Cases are made from a tape of random choices (seeded from VERIF_SEED, the suite and the case number) or enumerated."
}

pub fn nontrivial(id: &str) -> &'static str {
    match id {
        "C01" => "the text has at least two tokens and was tokenised",
        "C02" => "at least three tokens, on more than one line or with a column that is not trivially 1, were placed",
        "C03" => "the text has at least two characters and both lexers answered",
        "C04" => "the text has at least two characters",
        "C05" => "the library rejected the text",
        "C06" => "the text was accepted and has at least three tokens",
        "C07" => "the text was accepted and has at least one comment",
        "C08" => "the text was accepted and its tree has inner nodes",
        "C09" | "C10" | "C26" => "the second text differs from the first and has at least two or three tokens",
        "C11" => "there are two parts (or at least two statements) that were answered on their own",
        "C12" => "the sequence of operators is grammatical",
        "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => "the script has at least three tokens and a statement of this kind",
        "C19" => "the text was accepted by the WebAssembly build",
        "C20" => "both builds answered",
        "C21" => "the history has at least two different texts",
        "C22" | "C24" => "the piece has at least two tokens",
        "C23" => "the text was accepted and has at least two tokens",
        "C27" => "the text was accepted and has a statement of at least five visible characters",
        "C28" => "the text was rejected at one of its tokens, and more tokens followed",
        "C25" => "the script is broken at a known place",
        _ => "the oracle had something to judge",
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![];
    if !matches!(id, "C19" | "C21") {
        v.push("the library is called through the guarded hook module `verif` (native build of the same sources; serde output instead of JsValue)");
    }
    match id {
        "C03" => v.push("the reference lexer of the harness states the lexical rules"),
        "C09" | "C10" | "C11" | "C23" | "C26" | "C28" => v.push("the reference lexer decides where tokens begin and end"),
        "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C22" | "C24" => {
            v.push("the grammar generator of the harness states which tree a script has; constructs it does not generate are not covered")
        }
        "C19" | "C20" | "C21" => v.push("Node.js and wasm-bindgen run the WebAssembly build as a JavaScript user would"),
        _ => (),
    }
    v
}
