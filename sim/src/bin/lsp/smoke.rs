use crate::client::*;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::{FaultCfg, Vfs};
use crate::fw::*;
use serde_json::json;

pub fn smoke() {
    let mut v = Vfs::new();
    v.put("/sim/ext/stubs/rubystubs30/object.rb", b"class BasicObject\nend\nclass Object < BasicObject\nend\nclass Module < Object\nend\nclass Class < Module\nend\nmodule Kernel\n  def puts(*a)\n  end\nend\nclass String\n  def upcase\n  end\nend\nclass Integer\nend\nclass NilClass\nend\n");
    v.put("/sim/ws/p/a.rb", b"class Alpha\n  def one\n    1\n  end\nend\n");
    v.put("/sim/ws/p/b.rb", b"class Beta < Alpha\n  def two\n    Alpha.new.one\n    Gamma\n  end\nend\n");
    v.commit();
    start_sim(if ctx().case.seed == 0 { calm(1, 0) } else { swarm(ctx().case.seed, 0) }, v, FaultCfg::default());
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 16, 1 << 16);
    let mut c = Client::new(pipes, ctx().rng(5));
    let r = c.initialize(&["/sim/ws/p".to_string()], json!({"extensionPath": "/sim/ext"}));
    ctx().out.ops.push(format!("init {:?}", r.is_some()));
    c.open("/sim/ws/p/b.rb", 1, "class Beta < Alpha\n  def two\n    Alpha.new.one\n    Gamma\n  end\nend\n");
    let ok = c.settle(3 * SEC, 3600 * SEC);
    ctx().out.ops.push(format!("settled {ok} t={}ms", vnow() / MS));
    let r = c.call("textDocument/definition", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 2, "character": 6}}), 60 * SEC);
    ctx().out.ops.push(format!("def {r:?}"));
    let r = c.call("workspace/symbol", json!({"query": "Alpha"}), 60 * SEC);
    ctx().out.ops.push(format!("sym {r:?}"));
    let r = c.call("textDocument/references", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 2, "character": 6}, "context": {"includeDeclaration": true}}), 60 * SEC);
    ctx().out.ops.push(format!("refs {r:?}"));
    for (m, p) in [("textDocument/hover", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 2, "character": 15}})),
        ("textDocument/documentSymbol", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}})),
        ("textDocument/completion", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 2, "character": 6}})),
        ("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}})),
        ("textDocument/inlayHint", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 6, "character": 0}}})),
        ("textDocument/codeLens", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}})),
        ("textDocument/prepareTypeHierarchy", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 0, "character": 7}})),
        ("textDocument/prepareCallHierarchy", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 1, "character": 7}})),
        ("textDocument/implementation", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}, "position": {"line": 0, "character": 15}})),
        ("textDocument/foldingRange", json!({"textDocument": {"uri": uri("/sim/ws/p/b.rb")}})),
        ("ruby/namespaceTree", json!({"uri": uri("/sim/ws/p/b.rb")})),
        ("ruby-fast-lsp/debug/stats", json!({})),
        ("ruby-fast-lsp/indexing/status", json!({})),
        ("ruby/exportGraph", json!({})),
        ("ruby-fast-lsp/debug/methods", json!({"class": "Beta"})),
        ("ruby-fast-lsp/debug/ancestors", json!({"class": "Beta"})),
        ("ruby-fast-lsp/debug/lookup", json!({"fqn": "Beta"})),
    ] {
        let r = c.call(m, p, 60 * SEC);
        ctx().out.ops.push(format!("{m} {}", format!("{r:?}").chars().take(1500).collect::<String>()));
    }
    let r = c.call("shutdown", json!(null), 60 * SEC);
    ctx().out.ops.push(format!("shutdown {r:?}"));
    c.notify("exit", json!(null));
    c.hangup();
    c.run_for(60 * SEC, |_| false);
    for (t, q, e) in &c.events {
        ctx().out.ops.push(format!("{}ms #{q} {}", t / MS, format!("{e:?}").chars().take(600).collect::<String>()));
    }
    ctx().out.ops.push(format!("exit {:?} eof {} panics {:?}", server_exit(), c.eof, target_panics()));
    ctx().out.ops.push(server_stderr());
    let _ = sim();
}
