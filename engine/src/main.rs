mod symf;

use std::io::{BufRead, Write};

use ethereum_types::U256;
use evm_arithmetization::all_stark::Table;
use evm_arithmetization::cpu::kernel::aggregator::KERNEL;
use evm_arithmetization::verif::{self, Machine, Registers};
use plonky2::field::extension::quadratic::QuadraticExtension;
use plonky2::field::extension::FieldExtension;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use serde_json::{json, Value};
use starky::constraint_consumer::ConstraintConsumer;
use symf::{Node, SymF, ALPHA};

type FE = QuadraticExtension<F>;

const TABLES: [(&str, Table); 9] = [
    ("arithmetic", Table::Arithmetic),
    ("byte_packing", Table::BytePacking),
    ("cpu", Table::Cpu),
    ("keccak", Table::Keccak),
    ("keccak_sponge", Table::KeccakSponge),
    ("logic", Table::Logic),
    ("memory", Table::Memory),
    ("mem_before", Table::MemBefore),
    ("mem_after", Table::MemAfter),
];

fn dump(dir: &str) {
    KERNEL.to_file(&format!("{dir}/kernel.json"));
    let consts: serde_json::Map<String, Value> = verif::kernel_constants()
        .into_iter()
        .map(|(k, v)| (k, json!(format!("{v:#x}"))))
        .collect();
    let out = json!({
        "constants": consts,
        "segments": verif::segments(),
        "column_maps": verif::column_maps(),
        "ctls": verif::cross_table_lookups(),
        "lookups": TABLES.iter().map(|(n, t)| (n.to_string(), json!(verif::lookups(*t)))).collect::<serde_json::Map<_,_>>(),
    });
    std::fs::write(
        format!("{dir}/info.json"),
        serde_json::to_string(&out).unwrap(),
    )
    .unwrap();
}

const Z_LAST: u32 = u32::MAX - 1;
const L_FIRST: u32 = u32::MAX - 2;
const L_LAST: u32 = u32::MAX - 3;

/// Evaluates the constraints of every table on symbolic rows. Variables
/// `0..n` are the local row, `n..2n` the next one.
fn starks(dir: &str) {
    for (name, table) in TABLES {
        let n = verif::num_columns(table);
        symf::reset();
        let lv: Vec<SymF> = (0..n as u32).map(symf::var).collect();
        let nv: Vec<SymF> = (n as u32..2 * n as u32).map(symf::var).collect();
        let mut cc = ConstraintConsumer::new(
            vec![symf::var(ALPHA)],
            symf::var(Z_LAST),
            symf::var(L_FIRST),
            symf::var(L_LAST),
        );
        verif::eval_constraints::<SymF>(table, &lv, &nv, &mut cc);
        let arena = symf::take();
        let nodes: Vec<Value> = arena
            .nodes
            .iter()
            .map(|n| match *n {
                Node::Const(c) => json!([0, c]),
                Node::Var(Z_LAST) => json!([1, -1]),
                Node::Var(L_FIRST) => json!([1, -2]),
                Node::Var(L_LAST) => json!([1, -3]),
                Node::Var(ALPHA) => json!([1, -4]),
                Node::Var(v) => json!([1, v]),
                Node::Add(a, b) => json!([2, a, b]),
                Node::Sub(a, b) => json!([3, a, b]),
                Node::Mul(a, b) => json!([4, a, b]),
                Node::Neg(a) => json!([5, a]),
            })
            .collect();
        let out = json!({"name": name, "columns": n, "nodes": nodes, "constraints": arena.captured});
        std::fs::write(
            format!("{dir}/stark_{name}.json"),
            serde_json::to_string(&out).unwrap(),
        )
        .unwrap();
    }
}

fn u(v: &Value) -> U256 {
    match v {
        Value::String(s) => U256::from_str_radix(s.trim_start_matches("0x"), 16).unwrap(),
        v => v.as_u64().unwrap().into(),
    }
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

fn trip(v: &Value) -> (usize, usize, usize) {
    (us(&v[0]), us(&v[1]), us(&v[2]))
}

/// Evaluates the real constraints on concrete rows; returns the indices of
/// the constraints that do not vanish.
fn rows(case: &Value) -> Value {
    let name = case["table"].as_str().unwrap();
    let table = TABLES.iter().find(|t| t.0 == name).unwrap().1;
    let conv = |k: &str| -> Vec<FE> {
        case[k]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| <FE as FieldExtension<2>>::from_basefield(F::from_noncanonical_u64(u(x).low_u64())))
            .collect()
    };
    let (lv, nv) = (conv("lv"), conv("nv"));
    let z = FE::from_canonical_u64(case["z_last"].as_u64().unwrap_or(1));
    let first = FE::from_canonical_u64(case["first"].as_u64().unwrap_or(0));
    let last = FE::from_canonical_u64(case["last"].as_u64().unwrap_or(0));
    // Random evaluation points: all constraints vanish iff all accumulators
    // do, up to a negligible probability.
    let alphas = [F::from_canonical_u64(0x1234_5678_9abc_def1), F::from_canonical_u64(0x0fed_cba9_8765_4321)]
        .map(<FE as FieldExtension<2>>::from_basefield)
        .to_vec();
    let mut cc = ConstraintConsumer::<FE>::new(alphas, z, first, last);
    verif::eval_constraints::<FE>(table, &lv, &nv, &mut cc);
    let acc = cc.accumulators();
    json!({"ok": acc.iter().all(|x| x.is_zero()),
           "acc": acc.iter().map(|x| format!("{:?}", x.0.map(|y| y.to_canonical_u64()))).collect::<Vec<_>>()})
}

fn run(case: &Value) -> Value {
    let mut m = Machine::new();
    let r = &case["regs"];
    m.set_registers(&Registers {
        program_counter: us(&r["pc"]),
        is_kernel: r["kernel"].as_bool().unwrap(),
        context: us(&r["context"]),
        gas_used: r["gas"].as_u64().unwrap(),
        stack: r["stack"].as_array().unwrap().iter().map(u).collect(),
    });
    for c in case["mem"].as_array().unwrap() {
        let (a, b, v) = trip(c);
        m.set_memory(a, b, v, u(&c[3]));
    }
    verif::set_prover_inputs(
        case["prover"]
            .as_array()
            .map(|a| a.iter().map(u).collect()),
    );
    let halt: Vec<usize> = case["halt"].as_array().unwrap().iter().map(us).collect();
    let stop_user = case["stop_user"].as_bool().unwrap_or(false);
    let max = case["max"].as_u64().unwrap_or(1_000_000);
    let mut status = "limit".to_string();
    let mut steps = 0;
    let mut trace = vec![];
    let want_trace = case["trace"].as_bool().unwrap_or(false);
    while steps < max {
        if want_trace {
            trace.push(m.program_counter().0);
        }
        if let Err(e) = m.step() {
            status = format!("error: {e}");
            break;
        }
        steps += 1;
        let (pc, kernel, _) = m.program_counter();
        if kernel && halt.contains(&pc) {
            status = "halt".into();
            break;
        }
        if stop_user && !kernel {
            status = "user".into();
            break;
        }
    }
    verif::set_prover_inputs(None);
    let reads: Vec<String> = case["read"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|c| {
                    let (a, b, v) = trip(c);
                    format!("{:#x}", m.get_memory(a, b, v))
                })
                .collect()
        })
        .unwrap_or_default();
    let r = m.registers();
    json!({"status": status, "steps": steps, "reads": reads, "trace": trace,
        "regs": {"pc": r.program_counter, "kernel": r.is_kernel, "context": r.context, "gas": r.gas_used,
                 "stack": r.stack.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>()}})
}

fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let res = std::panic::catch_unwind(|| {
            if case["table"].is_string() {
                rows(&case)
            } else {
                run(&case)
            }
        })
        .unwrap_or_else(|_| json!({"status": "panic"}));
        writeln!(out, "{res}").unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "dump" => {
            dump(&args[2]);
            starks(&args[2]);
        }
        "serve" => serve(),
        _ => panic!("unknown command"),
    }
}
