//! Build a model from a case, run it in the requested ways and collect what was observed.
use crate::probe::{BeforeProbeBuilder, ProbeRecorderBuilder, Table, metric, unit};
use crate::{panic_text, q};
use ndarray::{Array1, Array2};
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::UnresolvedMetricU64;
use pywr_core::models::{
    Model, ModelBuilder, ModelDomain, ModelStepError, ModelTimings, MultiNetworkModel, MultiNetworkModelBuilder,
};
use pywr_core::network::{EdgeIndex, Network, NetworkBuilder, NetworkResult, NetworkState, NodeIndex};
use pywr_core::node::{CostAggFunc, NodeBuilder, NodeType, UnresolvedNode, UnresolvedStorageInitialVolume};
use pywr_core::parameters::{
    ActivationFunction, AggregatedIndexParameterBuilder, AggregatedParameterBuilder, ApportionParameterBuilder, Array1ParameterBuilder, Array2ParameterBuilder,
    DifferenceParameterBuilder, Parameter, ParameterBuilder, ParameterName, ParameterReturnValue, RbfProfileVariableConfig, VariableConfig,
    VariableParameter, VectorParameterBuilder, VolumeBetweenControlCurvesParameterBuilder,
};
use pywr_core::recorders::{Aggregation, AggregationOrder, MemoryRecorderBuilder, MetricSetBuilder, UnresolvedOutputMetric};
use pywr_core::solvers::{
    HighsSolver, HighsSolverSettings, HighsSolverSettingsBuilder, MicroLpSolver, MicroLpSolverSettings,
    MicroLpSolverSettingsBuilder, SimdIpmF64Solver, SimdIpmSolverSettings, SimdIpmSolverSettingsBuilder, Solver,
    SolverSettings,
};
use pywr_core::virtual_storage::VirtualStorageNodeBuilder;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder};
use pywr_schema::parameters::{ActivationFunction as SchemaActivation, RbfProfileVariableSettings};
use pywr_schema::{ComponentConversionError, ModelSchema, MultiNetworkModelSchema};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

struct Sinks {
    net: String,
    after: Table,
    before: Table,
}

enum Built {
    Single(Box<Model>),
    Multi(Box<MultiNetworkModel>),
}

fn add_extras(nb: &mut NetworkBuilder, net: &str, extras: &Value) -> Sinks {
    let after: Table = Arc::new(Mutex::new(Default::default()));
    let before: Table = Arc::new(Mutex::new(Default::default()));
    if let Some(arrays) = extras["arrays"].as_array() {
        for a in arrays {
            let name = ParameterName::new(a["name"].as_str().unwrap(), None);
            let offset = a["offset"].as_i64().map(|o| o as i32);
            let index = a["index"].as_bool().unwrap_or(false);
            if let Some(group) = a["group"].as_str() {
                // values[time][scenario]
                let rows: Vec<Vec<f64>> = a["values"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|r| r.as_array().unwrap().iter().map(|v| num(v)).collect())
                    .collect();
                let shape = (rows.len(), rows.first().map(|r| r.len()).unwrap_or(0));
                let flat: Vec<f64> = rows.into_iter().flatten().collect();
                if index {
                    let flat: Vec<u64> = flat.iter().map(|v| *v as u64).collect();
                    let mut b = Array2ParameterBuilder::new(name, Array2::from_shape_vec(shape, flat).unwrap(), group);
                    if let Some(o) = offset {
                        b.timestep_offset(o);
                    }
                    let b: Box<dyn ParameterBuilder<u64>> = Box::new(b);
                    nb.parameters().u64(b);
                } else {
                    let mut b = Array2ParameterBuilder::new(name, Array2::from_shape_vec(shape, flat).unwrap(), group);
                    if let Some(o) = offset {
                        b.timestep_offset(o);
                    }
                    let b: Box<dyn ParameterBuilder<f64>> = Box::new(b);
                    nb.parameters().f64(b);
                }
            } else {
                let vals: Vec<f64> = a["values"].as_array().unwrap().iter().map(num).collect();
                if index {
                    let vals: Vec<u64> = vals.iter().map(|v| *v as u64).collect();
                    let mut b = Array1ParameterBuilder::new(name, Array1::from_vec(vals));
                    if let Some(o) = offset {
                        b.timestep_offset(o);
                    }
                    let b: Box<dyn ParameterBuilder<u64>> = Box::new(b);
                    nb.parameters().u64(b);
                } else {
                    let mut b = Array1ParameterBuilder::new(name, Array1::from_vec(vals));
                    if let Some(o) = offset {
                        b.timestep_offset(o);
                    }
                    let b: Box<dyn ParameterBuilder<f64>> = Box::new(b);
                    nb.parameters().f64(b);
                }
            }
        }
    }
    core_params(nb, extras);
    core_network(nb, &extras["core"]);
    if let Some(cs) = extras["cost_agg"].as_array() {
        for c in cs {
            let f = match c["func"].as_str().unwrap() {
                "sum" => CostAggFunc::Sum,
                "max" => CostAggFunc::Max,
                _ => CostAggFunc::Min,
            };
            let name = UnresolvedNode::new(c["node"].as_str().unwrap(), c["sub"].as_str());
            nb.node_builder(&name).expect("node with a cost function").cost_agg_func(f);
        }
    }
    if let Some(ps) = extras["bprobes"].as_array() {
        if !ps.is_empty() {
            let b: Box<dyn ParameterBuilder<f64>> = Box::new(BeforeProbeBuilder {
                name: ParameterName::new("__before_probe", None),
                metrics: ps.iter().map(metric).collect(),
                units: ps.iter().map(unit).collect(),
                sink: before.clone(),
            });
            nb.parameters().f64(b);
        }
    }
    if let Some(ps) = extras["probes"].as_array() {
        if !ps.is_empty() {
            nb.recorder(Box::new(ProbeRecorderBuilder {
                name: "__probe".to_string(),
                metrics: ps.iter().map(metric).collect(),
                units: ps.iter().map(unit).collect(),
                sink: after.clone(),
            }));
        }
    }
    Sinks {
        net: net.to_string(),
        after,
        before,
    }
}

/// Parameters of the core library that a model file cannot declare.
fn core_params(nb: &mut NetworkBuilder, extras: &Value) {
    let Some(ps) = extras["core_params"].as_array() else {
        return;
    };
    for p in ps {
        let name = ParameterName::new(p["name"].as_str().unwrap(), None);
        let opt = |k: &str| (!p[k].is_null()).then(|| metric(&p[k]));
        match p["kind"].as_str().unwrap() {
            "difference" => {
                let mut b = DifferenceParameterBuilder::new(name, metric(&p["a"]), metric(&p["b"]));
                if let Some(m) = opt("min") {
                    b.min(m);
                }
                if let Some(m) = opt("max") {
                    b.max(m);
                }
                nb.parameters().f64(Box::new(b));
            }
            "volume_between" => {
                let mut b = VolumeBetweenControlCurvesParameterBuilder::new(name, metric(&p["total"]));
                if let Some(m) = opt("lower") {
                    b.lower(m);
                }
                if let Some(m) = opt("upper") {
                    b.upper(m);
                }
                nb.parameters().f64(Box::new(b));
            }
            "apportion" => {
                nb.parameters().multi(Box::new(ApportionParameterBuilder::before(
                    name,
                    metric(&p["metric"]),
                    metric(&p["curve"]),
                )));
            }
            "vector" => {
                let v: Vec<f64> = p["values"].as_array().unwrap().iter().map(num).collect();
                nb.parameters().f64(Box::new(VectorParameterBuilder::new(name, &v)));
            }
            k => panic!("unknown core parameter {k}"),
        }
    }
}

fn unresolved(v: &Value) -> UnresolvedNode {
    match v {
        Value::Array(a) => UnresolvedNode::new(a[0].as_str().unwrap(), a[1].as_str()),
        v => UnresolvedNode::new(v.as_str().unwrap(), None),
    }
}

fn metric_u64(v: &Value) -> UnresolvedMetricU64 {
    match v["m"].as_str().unwrap() {
        "lit" => UnresolvedMetricU64::Constant((v["v"].as_u64().unwrap()) / 1000),
        _ => match v["key"].as_str() {
            Some(k) => UnresolvedMetricU64::MultiParameterValue {
                name: ParameterName::new(v["name"].as_str().unwrap(), None),
                key: k.to_string(),
                return_value: ParameterReturnValue::Before,
            },
            None => UnresolvedMetricU64::new_parameter_before(ParameterName::new(v["name"].as_str().unwrap(), None)),
        },
    }
}

/// A network declared with the core library's own builders.
fn core_network(nb: &mut NetworkBuilder, c: &Value) {
    let list = |k: &str| c[k].as_array().cloned().unwrap_or_default();
    for n in list("nodes") {
        let name = unresolved(&n["n"]);
        let mut b = match n["k"].as_str().unwrap() {
            "in" => NodeBuilder::input(name),
            "out" => NodeBuilder::output(name),
            "link" => NodeBuilder::link(name),
            _ => NodeBuilder::storage(name),
        };
        if let Some(v) = n["iv"].as_i64() {
            b.initial_volume(UnresolvedStorageInitialVolume::Absolute(v as f64 / 1000.0));
        }
        for (k, f) in [
            ("max_flow", NodeBuilder::max_flow as fn(&mut NodeBuilder, _) -> &mut NodeBuilder),
            ("min_flow", NodeBuilder::min_flow),
            ("cost", NodeBuilder::cost),
            ("max_volume", NodeBuilder::max_volume),
            ("min_volume", NodeBuilder::min_volume),
        ] {
            if n[k].is_object() {
                f(&mut b, metric(&n[k]));
            }
        }
        nb.node(b);
    }
    for e in list("edges") {
        nb.connect(unresolved(&e[0]), unresolved(&e[1]));
    }
    for a in list("aggs") {
        let mut b = AggregatedNodeBuilder::new(unresolved(&a["n"]));
        for m in a["mem"].as_array().unwrap() {
            b.nodes(vec![unresolved(m)]);
        }
        nb.agg_node(b);
    }
    for a in list("asts") {
        let mut b = AggregatedStorageNodeBuilder::new(unresolved(&a["n"]));
        for m in a["mem"].as_array().unwrap() {
            b.node(unresolved(m));
        }
        nb.agg_storage_node(b);
    }
    for a in list("vss") {
        let mem: Vec<UnresolvedNode> = a["mem"].as_array().unwrap().iter().map(unresolved).collect();
        let mut b = VirtualStorageNodeBuilder::new(a["n"].as_str().unwrap(), &mem);
        b.initial_volume(UnresolvedStorageInitialVolume::Absolute(0.0));
        nb.virtual_storage_node(b);
    }
    for p in list("pars") {
        let name = ParameterName::new(p["n"].as_str().unwrap(), None);
        let refs = p["refs"].as_array().unwrap();
        match p["t"].as_str().unwrap() {
            "f" => {
                let mut b = AggregatedParameterBuilder::before(name, AggFuncF64::Sum);
                for r in refs {
                    b.metric(metric(r));
                }
                nb.parameters().f64(Box::new(b));
            }
            "u" => {
                let mut b = AggregatedIndexParameterBuilder::before(name, AggFuncU64::Sum);
                for r in refs {
                    b.metric(metric_u64(r));
                }
                nb.parameters().u64(Box::new(b));
            }
            _ => {
                nb.parameters().multi(Box::new(ApportionParameterBuilder::before(
                    name,
                    metric(&refs[0]),
                    metric(&refs[1]),
                )));
            }
        }
    }
    for m in list("msets") {
        let mut b = MetricSetBuilder::new(m["n"].as_str().unwrap());
        for r in m["refs"].as_array().unwrap() {
            b.metric(UnresolvedOutputMetric::new("x", "y", "z", None, metric(r)));
        }
        nb.metric_set(b);
    }
    for r in list("recs") {
        nb.recorder(Box::new(MemoryRecorderBuilder::new(
            r["n"].as_str().unwrap(),
            r["ms"].as_str().unwrap(),
            Aggregation::new(None, None, None),
            AggregationOrder::MetricTimeScenario,
        )));
    }
}

/// What a built network consists of.
fn dump(n: &Network) -> Value {
    let full = |(a, b): (&str, Option<&str>)| match b {
        Some(b) => format!("{a}/{b}"),
        None => a.to_string(),
    };
    let at = |i: &NodeIndex| full(n.get_node(i).expect("node").full_name());
    let kind = |t: NodeType| match t {
        NodeType::Input => "in",
        NodeType::Output => "out",
        NodeType::Link => "link",
        NodeType::Storage => "sto",
    };
    let ends = |r: Result<&Vec<EdgeIndex>, _>| -> Vec<String> {
        let none = |_: pywr_core::node::NodeError| ();
        r.map_err(none)
            .map(|v| {
                v.iter()
                    .map(|e| {
                        let e = n.get_edge(e).expect("edge");
                        format!("{}->{}", at(&e.from_node_index), at(&e.to_node_index))
                    })
                    .collect()
            })
            .unwrap_or_default()
    };
    json!({
        "nodes": n.nodes().iter().map(|x| json!({"n": full(x.full_name()), "k": kind(x.node_type()),
            "i": ends(x.get_incoming_edges()), "o": ends(x.get_outgoing_edges())})).collect::<Vec<_>>(),
        "edges": n.edges().iter().map(|e| json!([at(&e.from_node_index), at(&e.to_node_index)])).collect::<Vec<_>>(),
        "aggs": n.aggregated_nodes().iter().map(|x| json!({"n": full(x.full_name()),
            "mem": x.iter_nodes().flatten().map(at).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "asts": n.aggregated_storage_nodes().iter().map(|x| json!({"n": full(x.full_name()),
            "mem": x.iter_nodes().map(at).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "vss": n.virtual_storage_nodes().iter().map(|x| json!({"n": full(x.full_name()),
            "mem": x.nodes().iter().map(at).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "recs": n.recorders().iter().map(|r| r.name().to_string()).collect::<Vec<_>>(),
    })
}

/// A number in a case: an integer in thousandths.
fn num(v: &Value) -> f64 {
    v.as_f64().unwrap() / 1000.0
}

fn describe_domain(domain: &ModelDomain) -> (Value, Value) {
    let times: Vec<Value> = domain
        .time()
        .timesteps()
        .iter()
        .map(|t| {
            json!({
                "idx": t.index, "y": t.date.year(), "mo": t.date.month(), "d": t.date.day(),
                "h": t.date.hour(), "mi": t.date.minute(), "s": t.date.second(),
                "dt": q(t.days()), "sec": (t.days() * 86400.0).round() as i64,
                "ms": t.duration.milliseconds() / 1000,
                "doy": t.day_of_year(), "doyi": t.day_of_year_index(),
                "fdoy": q(t.fractional_day_of_year()), "leap": t.is_leap_year(), "first": t.is_first(),
            })
        })
        .collect();
    let ngroups = domain.scenarios().groups().len();
    let scens: Vec<Value> = domain
        .scenarios()
        .indices()
        .iter()
        .map(|s| {
            json!({
                "sim": s.simulation_id(),
                "idx": s.simulation_indices(),
                "schema": (0..ngroups).map(|g| s.schema_index_for_group(g)).collect::<Vec<_>>(),
                "labels": s.labels(), "label": s.label(),
            })
        })
        .collect();
    (Value::Array(times), Value::Array(scens))
}

fn table(t: &Table) -> Value {
    rows(&t.lock().unwrap())
}

fn rows(t: &Rows) -> Value {
    Value::Array(
        t.iter()
            .map(|((ts, sc), v)| json!({"t": ts, "s": sc, "v": v}))
            .collect(),
    )
}

fn collect_result(res: &NetworkResult, names: &[String]) -> Value {
    let mut out = serde_json::Map::new();
    for n in names {
        if let Some(r) = res.get(n) {
            let agg = match catch_unwind(AssertUnwindSafe(|| r.aggregated_value())) {
                Ok(Ok(v)) => json!({"ok": true, "v": q(v)}),
                Ok(Err(e)) => json!({"ok": false, "err": e.to_string()}),
                Err(p) => json!({"ok": false, "panic": panic_text(p)}),
            };
            let rows = match r.to_dataframe() {
                Ok(df) => {
                    let g = |c: &str| df.column(c).unwrap().clone();
                    let s = |c: &str, i: usize| match g(c).get(i).unwrap() {
                        polars::prelude::AnyValue::String(s) => s.to_string(),
                        polars::prelude::AnyValue::StringOwned(s) => s.to_string(),
                        v => v.to_string(),
                    };
                    (0..df.height())
                        .map(|i| {
                            let v: f64 = g("value").get(i).unwrap().try_extract().unwrap();
                            let sim: u32 = g("simulation_id").get(i).unwrap().try_extract().unwrap();
                            json!({"ts": s("time_start", i), "te": s("time_end", i), "sim": sim,
                                "label": s("label", i), "set": s("metric_set", i), "name": s("name", i),
                                "attr": s("attribute", i), "v": q(v)})
                        })
                        .collect::<Vec<_>>()
                }
                Err(_) => vec![],
            };
            out.insert(n.clone(), json!({"agg": agg, "rows": rows}));
        }
    }
    Value::Object(out)
}

/// The settings of a variable, read as a model file declares them.
fn variable_config(v: &Value) -> Box<dyn VariableConfig> {
    if v["type"] == "Rbf" {
        let mut v = v.clone();
        v.as_object_mut().unwrap().remove("type");
        let s: RbfProfileVariableSettings = serde_json::from_value(v).expect("rbf settings");
        let c: RbfProfileVariableConfig = s.into();
        Box::new(c)
    } else {
        let s: SchemaActivation = serde_json::from_value(v.clone()).expect("activation function");
        let c: ActivationFunction = s.into();
        Box::new(c)
    }
}

trait VarValue: Copy {
    fn read(v: &Value) -> Self;
    fn show(self) -> Value;
    fn view(p: &dyn Parameter) -> Option<&dyn VariableParameter<Self>>;
}
impl VarValue for f64 {
    fn read(v: &Value) -> f64 {
        num(v)
    }
    fn show(self) -> Value {
        json!(q(self))
    }
    fn view(p: &dyn Parameter) -> Option<&dyn VariableParameter<f64>> {
        p.as_f64_variable()
    }
}
impl VarValue for u32 {
    fn read(v: &Value) -> u32 {
        v.as_u64().unwrap() as u32
    }
    fn show(self) -> Value {
        json!(self)
    }
    fn view(p: &dyn Parameter) -> Option<&dyn VariableParameter<u32>> {
        p.as_u32_variable()
    }
}

fn show<T: VarValue>(v: Option<Vec<T>>) -> Value {
    json!(v.map(|v| v.into_iter().map(|x| x.show()).collect::<Vec<_>>()).unwrap_or_default())
}

fn outcome(r: Result<(), pywr_core::NetworkError>) -> Value {
    match r {
        Ok(()) => json!({"ok": true}),
        Err(e) => json!({"ok": false, "err": e.to_string()}),
    }
}

/// Apply one variable operation to a network state and describe what happened.
fn var_op(op: &Value, network: &Network, domain: &ModelDomain, state: &mut NetworkState) -> Value {
    let name = ParameterName::new(op["param"].as_str().unwrap(), None);
    let Some(idx) = network.get_parameter_index_by_name(&name) else {
        return json!({"ok": false, "err": "no such parameter"});
    };
    let days = op["days"].as_bool().unwrap_or(false);
    let scens = domain.scenarios().indices();
    match op["op"].as_str().unwrap() {
        "set" => {
            let cfg = variable_config(&op["act"]);
            let cfg = cfg.as_ref();
            let raw = op["values"].as_array().unwrap();
            let scen = op["scen"].as_u64().map(|s| scens[s as usize].clone());
            if days {
                let v: Vec<u32> = raw.iter().map(u32::read).collect();
                outcome(match scen {
                    Some(s) => network.set_u32_parameter_variable_values_for_scenario(idx, s, &v, cfg, state),
                    None => network.set_u32_parameter_variable_values(idx, &v, cfg, state),
                })
            } else {
                let v: Vec<f64> = raw.iter().map(f64::read).collect();
                outcome(match scen {
                    Some(s) => network.set_f64_parameter_variable_values_for_scenario(idx, s, &v, cfg, state),
                    None => network.set_f64_parameter_variable_values(idx, &v, cfg, state),
                })
            }
        }
        "get" => {
            let mut one = vec![];
            for s in scens {
                let r = if days {
                    network
                        .get_u32_parameter_variable_values_for_scenario(idx, s.clone(), state)
                        .map(show::<u32>)
                } else {
                    network
                        .get_f64_parameter_variable_values_for_scenario(idx, s.clone(), state)
                        .map(show::<f64>)
                };
                match r {
                    Ok(v) => one.push(v),
                    Err(e) => return json!({"ok": false, "err": e.to_string()}),
                }
            }
            if days {
                return json!({"ok": true, "all": one.clone(), "one": one});
            }
            match network.get_f64_parameter_variable_values(idx, state) {
                Ok(v) => json!({"ok": true, "all": v.into_iter().map(show::<f64>).collect::<Vec<_>>(), "one": one}),
                Err(e) => json!({"ok": false, "err": e.to_string()}),
            }
        }
        "bounds" => {
            fn bounds<T: VarValue>(p: &dyn Parameter, cfg: &dyn VariableConfig) -> Value {
                match T::view(p) {
                    Some(v) => json!({"ok": true, "lo": show(v.get_lower_bounds(cfg)), "hi": show(v.get_upper_bounds(cfg)), "n": v.size(cfg)}),
                    None => json!({"ok": false, "err": "not a variable"}),
                }
            }
            let cfg = variable_config(&op["act"]);
            let p = network.get_parameter(idx).expect("parameter");
            if days {
                bounds::<u32>(p, cfg.as_ref())
            } else {
                bounds::<f64>(p, cfg.as_ref())
            }
        }
        o => panic!("unknown variable op {o}"),
    }
}

struct Ctx<'a> {
    sinks: &'a [Sinks],
    spec: &'a Value,
    outputs: Vec<(String, Vec<String>)>,
}

/// What each of several set-ups of one model was seen to do.
struct Books<'a> {
    sinks: &'a [Sinks],
    logs: Vec<Vec<Value>>,
    seen: Vec<Vec<(Rows, Rows)>>,
}

type Rows = std::collections::BTreeMap<(usize, usize), Vec<i64>>;

impl<'a> Books<'a> {
    /// Forget what preliminary runs left behind.
    fn new(sinks: &'a [Sinks], count: usize) -> Self {
        for s in sinks {
            s.after.lock().unwrap().clear();
            s.before.lock().unwrap().clear();
        }
        Self {
            sinks,
            logs: vec![vec![]; count],
            seen: (0..count).map(|_| sinks.iter().map(|_| Default::default()).collect()).collect(),
        }
    }

    fn log(&mut self, on: usize, v: Value) {
        self.logs[on].push(v);
    }

    /// Everything the probes saw since the last call was done by set-up `on`.
    fn observe(&mut self, on: usize) {
        for (i, s) in self.sinks.iter().enumerate() {
            self.seen[on][i].0.append(&mut *s.after.lock().unwrap());
            self.seen[on][i].1.append(&mut *s.before.lock().unwrap());
        }
    }

    fn finish(self, results: Vec<Value>) -> Value {
        let mut states = vec![];
        for (on, log) in self.logs.into_iter().enumerate() {
            let mut obs = serde_json::Map::new();
            for (s, (after, before)) in self.sinks.iter().zip(&self.seen[on]) {
                obs.insert(s.net.clone(), json!({"after": rows(after), "before": rows(before)}));
            }
            let mut st = json!({"log": log, "obs": obs});
            if let Some(r) = results.get(on) {
                st["results"] = r.clone();
            }
            states.push(st);
        }
        let mut out = states[0].clone();
        out["status"] = json!("ok");
        out["states"] = Value::Array(states);
        out
    }
}

fn run_single<S>(model: &Model, settings: &S::Settings, ctx: &Ctx) -> Value
where
    S: Solver,
    <S as Solver>::Settings: SolverSettings,
{
    let spec = ctx.spec;
    let names = &ctx.outputs[0].1;
    match spec["mode"].as_str().unwrap_or("run") {
        "run" => match model.run::<S>(settings) {
            Ok(r) => json!({"status": "ok", "results": {"": collect_result(&r.network_result, names)}}),
            Err(e) => json!({"status": "error", "error": e.to_string()}),
        },
        // plan: list of {"steps": n} / {"run": true} / {"var": {...}}; finalise at the end if asked
        "plan" => {
            // One or more set-ups of the model, advanced in any order.
            let count = spec["setups"].as_u64().unwrap_or(1) as usize;
            let mut tracks = vec![];
            for _ in 0..count {
                let state = match model.setup::<S>(settings) {
                    Ok(s) => s,
                    Err(e) => return json!({"status": "setup_error", "error": e.to_string()}),
                };
                let timings = ModelTimings::new_with_component_timings(model.network());
                let net_timings = pywr_core::network::NetworkTimings::new_with_component_timings(model.network());
                tracks.push((state, timings, net_timings));
            }
            let pool = if settings.parallel() {
                Some(
                    rayon::ThreadPoolBuilder::new()
                        .num_threads(settings.threads())
                        .build()
                        .unwrap(),
                )
            } else {
                None
            };
            let mut books = Books::new(ctx.sinks, count);
            for op in spec["plan"].as_array().unwrap() {
                let on = op["on"].as_u64().unwrap_or(0) as usize;
                let (state, timings, net_timings) = &mut tracks[on];
                if let Some(n) = op["steps"].as_u64() {
                    for _ in 0..n {
                        match model.step::<S>(state, pool.as_ref(), net_timings) {
                            Ok(()) => books.log(on, json!("step")),
                            Err(ModelStepError::EndOfTimesteps) => books.log(on, json!("end")),
                            Err(e) => {
                                books.log(on, json!("error"));
                                return json!({"status": "error", "error": e.to_string(), "log": books.logs[on]});
                            }
                        }
                    }
                } else if op["run"].as_bool() == Some(true) {
                    match model.run_with_state::<S>(state, settings, timings) {
                        Ok(()) => books.log(on, json!("run")),
                        Err(e) => return json!({"status": "error", "error": e.to_string(), "log": books.logs[on]}),
                    }
                } else if op["var"].is_object() {
                    let v = var_op(&op["var"], model.network(), model.domain(), state.network_state_mut());
                    books.log(on, v);
                }
                books.observe(on);
            }
            let mut results = vec![];
            for (state, timings, _) in tracks {
                if spec["finalise"].as_bool().unwrap_or(true) {
                    match model.finalise::<S>(state, timings) {
                        Ok(r) => results.push(json!({"": collect_result(&r.network_result, names)})),
                        Err(e) => return json!({"status": "error", "error": e.to_string(), "log": books.logs[0]}),
                    }
                }
            }
            books.finish(results)
        }
        m => panic!("unknown mode {m}"),
    }
}

fn collect_multi(r: &pywr_core::models::MultiNetworkModelResult, ctx: &Ctx) -> Value {
    let mut m = serde_json::Map::new();
    for (net, names) in &ctx.outputs {
        if let Some(nr) = r.network_results.get(net) {
            m.insert(net.clone(), collect_result(nr, names));
        }
    }
    Value::Object(m)
}

fn run_multi<S>(model: &MultiNetworkModel, settings: &S::Settings, ctx: &Ctx) -> Value
where
    S: Solver,
    <S as Solver>::Settings: SolverSettings,
{
    let spec = ctx.spec;
    match spec["mode"].as_str().unwrap_or("run") {
        "run" => match model.run::<S>(settings) {
            Ok(r) => json!({"status": "ok", "results": collect_multi(&r, ctx)}),
            Err(e) => json!({"status": "error", "error": e.to_string()}),
        },
        "plan" => {
            let count = spec["setups"].as_u64().unwrap_or(1) as usize;
            let mut tracks = vec![];
            for _ in 0..count {
                let state = match model.setup::<S>(settings) {
                    Ok(s) => s,
                    Err(e) => return json!({"status": "setup_error", "error": e.to_string()}),
                };
                // The timings have no public constructor: take those of a preliminary run.
                let timings = match model.run::<S>(settings) {
                    Ok(r) => r.timings,
                    Err(e) => return json!({"status": "error", "error": e.to_string()}),
                };
                tracks.push((state, timings));
            }
            let mut books = Books::new(ctx.sinks, count);
            for op in spec["plan"].as_array().unwrap() {
                let on = op["on"].as_u64().unwrap_or(0) as usize;
                let (state, timings) = &mut tracks[on];
                if let Some(n) = op["steps"].as_u64() {
                    for _ in 0..n {
                        match model.step::<S>(state, None, timings) {
                            Ok(()) => books.log(on, json!("step")),
                            Err(e) if e.to_string() == "No more timesteps" => books.log(on, json!("end")),
                            Err(e) => {
                                books.log(on, json!("error"));
                                return json!({"status": "error", "error": e.to_string(), "log": books.logs[on]});
                            }
                        }
                    }
                } else if op["run"].as_bool() == Some(true) {
                    match model.run_with_state::<S>(state, settings, timings) {
                        Ok(()) => books.log(on, json!("run")),
                        Err(e) => return json!({"status": "error", "error": e.to_string(), "log": books.logs[on]}),
                    }
                }
                books.observe(on);
            }
            let mut results = vec![];
            for (state, timings) in tracks {
                match model.finalise::<S>(state, timings) {
                    Ok(r) => results.push(collect_multi(&r, ctx)),
                    Err(e) => return json!({"status": "error", "error": e.to_string(), "log": books.logs[0]}),
                }
            }
            books.finish(results)
        }
        m => panic!("unknown mode {m}"),
    }
}

fn dispatch(built: &Built, ctx: &Ctx) -> Value {
    let threads = ctx.spec["threads"].as_u64().unwrap_or(0) as usize;
    let ignore = ctx.spec["ignore_features"].as_bool().unwrap_or(false);
    match ctx.spec["solver"].as_str().unwrap_or("highs") {
        "highs" => {
            let mut b = HighsSolverSettingsBuilder::default();
            if threads > 0 {
                b = b.parallel().threads(threads);
            }
            if ignore {
                b = b.ignore_feature_requirements();
            }
            let s: HighsSolverSettings = b.build();
            match built {
                Built::Single(m) => run_single::<HighsSolver>(m, &s, ctx),
                Built::Multi(m) => run_multi::<HighsSolver>(m, &s, ctx),
            }
        }
        "microlp" => {
            let mut b = MicroLpSolverSettingsBuilder::default();
            if threads > 0 {
                b = b.parallel().threads(threads);
            }
            if ignore {
                b = b.ignore_feature_requirements();
            }
            let s: MicroLpSolverSettings = b.build();
            match built {
                Built::Single(m) => run_single::<MicroLpSolver>(m, &s, ctx),
                Built::Multi(m) => run_multi::<MicroLpSolver>(m, &s, ctx),
            }
        }
        "ipm" => {
            let mut b = SimdIpmSolverSettingsBuilder::default();
            if threads > 0 {
                b = b.parallel().threads(threads);
            }
            if ignore {
                b = b.ignore_feature_requirements();
            }
            let s: SimdIpmSolverSettings = b.build();
            match built {
                Built::Single(m) => match m.run_multi_scenario::<SimdIpmF64Solver>(&s) {
                    Ok(r) => {
                        json!({"status": "ok", "results": {"": collect_result(&r.network_result, &ctx.outputs[0].1)}})
                    }
                    Err(e) => json!({"status": "error", "error": e.to_string()}),
                },
                Built::Multi(m) => match m.run_multi_scenario::<SimdIpmF64Solver>(&s) {
                    Ok(r) => json!({"status": "ok", "results": collect_multi(&r, ctx)}),
                    Err(e) => json!({"status": "error", "error": e.to_string()}),
                },
            }
        }
        s => panic!("unknown solver {s}"),
    }
}

fn names(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

/// Load and save a document n times; returns every saved document.
fn content(id: &Value, case: &Value, n: u64) -> Value {
    let multi = case["multi"].is_object();
    let mut text = match case["model_text"].as_str() {
        Some(t) => t.to_string(),
        None if multi => case["multi"].to_string(),
        None => case["model"].to_string(),
    };
    let mut texts = vec![];
    for k in 0..n {
        let saved = if multi {
            text.parse::<MultiNetworkModelSchema>()
                .map_err(|e| format!("{e}"))
                .map(|s| serde_json::to_string_pretty(&s).unwrap())
        } else {
            text.parse::<ModelSchema>()
                .map_err(|e| format!("{e}"))
                .map(|s| serde_json::to_string_pretty(&s).unwrap())
        };
        text = match saved {
            Ok(t) => t,
            Err(e) => {
                let stage = if k == 0 { "load_error" } else { "reload_error" };
                return json!({"id": id, "status": stage, "error": e, "reser": texts, "runs": []});
            }
        };
        texts.push(serde_json::from_str::<Value>(&text).unwrap());
    }
    json!({"id": id, "status": "ok", "reser": texts, "runs": []})
}

/// What visitors of a document reach, and the document after each kind of rewriting.
fn visit(id: &Value, case: &Value) -> Value {
    use pywr_schema::metric::Metric;
    use pywr_schema::{VisitMetrics, VisitNodeReferences, VisitPaths};
    let text = case["model"].to_string();
    let load = || text.parse::<ModelSchema>();
    let doc = |s: &ModelSchema| serde_json::from_str::<Value>(&serde_json::to_string(s).unwrap()).unwrap();
    let schema = match load() {
        Ok(s) => s,
        Err(e) => return json!({"id": id, "status": "load_error", "error": e.to_string(), "runs": []}),
    };
    let (mut metrics, mut paths, mut nodes) = (vec![], vec![], vec![]);
    schema.visit_metrics(&mut |m: &Metric| metrics.push(serde_json::from_str::<Value>(&serde_json::to_string(m).unwrap()).unwrap()));
    schema.visit_paths(&mut |p: &std::path::Path| paths.push(p.to_string_lossy().to_string()));
    schema.visit_node_references(&mut |n: &str| nodes.push(n.to_string()));
    let (mut a, mut b, mut c) = (load().unwrap(), load().unwrap(), load().unwrap());
    a.visit_metrics_mut(&mut |m: &mut Metric| *m = Metric::Literal { value: 424242.0 });
    b.visit_paths_mut(&mut |p: &mut PathBuf| *p = PathBuf::from("moved"));
    c.visit_node_references_mut(&mut |n: &mut String| *n = "renamed".to_string());
    json!({"id": id, "status": "ok", "runs": [], "visit": {"saved": doc(&schema), "metrics": metrics, "paths": paths, "nodes": nodes,
        "m": doc(&a), "p": doc(&b), "n": doc(&c)}})
}

/// An error of the conversion: what kind of component, its name, the attribute.
#[allow(unreachable_patterns)]
fn v1_error(e: &ComponentConversionError) -> Value {
    match e {
        ComponentConversionError::Node { attr, name, .. } => json!({"k": "node", "n": name, "attr": attr, "e": e.to_string()}),
        ComponentConversionError::Parameter { attr, name, .. } => {
            json!({"k": "parameter", "n": name, "attr": attr, "e": e.to_string()})
        }
        ComponentConversionError::Scenarios { .. } => json!({"k": "scenarios", "n": "", "attr": "", "e": e.to_string()}),
        ComponentConversionError::Table { name, .. } => json!({"k": "table", "n": name, "attr": "", "e": e.to_string()}),
        ComponentConversionError::Edge { from_node, to_node, .. } => {
            json!({"k": "edge", "n": format!("{from_node}->{to_node}"), "attr": "", "e": e.to_string()})
        }
        _ => json!({"k": "time", "n": "", "attr": "", "e": e.to_string()}),
    }
}

pub fn run_case(case: &Value) -> Value {
    let id = case["id"].clone();
    let dir = case["dir"].as_str().map(PathBuf::from);
    let extras = &case["extras"];
    let fail = |stage: &str, e: String| json!({"id": id, "status": stage, "error": e, "runs": []});

    let mut reser = Value::Null;
    if let Some(n) = case["content"].as_u64() {
        return content(&id, case, n);
    }
    if case["visit"].as_bool() == Some(true) {
        return visit(&id, case);
    }
    let (built, domain, sinks, outputs): (Built, ModelDomain, Vec<Sinks>, Vec<(String, Vec<String>)>);
    let mut v1 = Value::Null;
    if case["model"].is_object() || case["model_text"].is_string() || case["v1"].is_object() {
        let mut schema: ModelSchema = if case["v1"].is_object() {
            let (schema, errors) = match ModelSchema::from_v1_str(&case["v1"].to_string()) {
                Ok(r) => r,
                Err(e) => return fail("load_error", format!("{e}")),
            };
            let mut doc = serde_json::to_value(&schema).unwrap();
            v1 = json!({"errors": errors.iter().map(v1_error).collect::<Vec<_>>(), "doc": doc.clone()});
            if case["convert_only"].as_bool() == Some(true) {
                return json!({"id": id, "status": "ok", "v1": v1, "runs": []});
            }
            // recorders have no counterpart: the outputs to read are added to the converted model
            if let Some(add) = case["v1_add"].as_object() {
                for (k, v) in add {
                    doc["network"][k] = v.clone();
                }
            }
            match doc.to_string().parse() {
                Ok(s) => s,
                Err(e) => return json!({"id": id, "status": "reload_error", "error": format!("{e}"), "v1": v1, "runs": []}),
            }
        } else {
            let text = match case["model_text"].as_str() {
                Some(t) => t.to_string(),
                None => case["model"].to_string(),
            };
            match text.parse() {
                Ok(s) => s,
                Err(e) => return fail("load_error", format!("{e}")),
            }
        };
        let fail = |stage: &str, e: String| json!({"id": id, "status": stage, "error": e, "v1": v1, "runs": []});
        if case["roundtrip"].as_u64().is_some() || case["reserialise"].as_bool() == Some(true) {
            let mut texts = vec![];
            for _ in 0..case["roundtrip"].as_u64().unwrap_or(1) {
                let t = serde_json::to_string_pretty(&schema).unwrap();
                texts.push(serde_json::from_str::<Value>(&t).unwrap());
                schema = match t.parse() {
                    Ok(s) => s,
                    Err(e) => return fail("reload_error", format!("{e}")),
                };
            }
            reser = Value::Array(texts);
        }
        let mut builder: ModelBuilder = match schema.create_model_builder(dir.as_deref(), dir.as_deref()) {
            Ok(b) => b,
            Err(e) => return fail("schema_error", format!("{e}")),
        };
        let s = add_extras(builder.network_builder(), "", &extras[""]);
        let model = match builder.build() {
            Ok(m) => m,
            Err(e) => return fail("build_error", format!("{e}")),
        };
        domain = model.domain().clone();
        built = Built::Single(Box::new(model));
        sinks = vec![s];
        outputs = vec![("".to_string(), names(&extras[""]["outputs"]))];
    } else {
        let mut schema: MultiNetworkModelSchema = match case["multi"].to_string().parse() {
            Ok(s) => s,
            Err(e) => return fail("load_error", format!("{e}")),
        };
        for _ in 0..case["roundtrip"].as_u64().unwrap_or(0) {
            schema = match serde_json::to_string(&schema).unwrap().parse() {
                Ok(s) => s,
                Err(e) => return fail("reload_error", format!("{e}")),
            };
        }
        let mut builder: MultiNetworkModelBuilder = match schema.create_model_builder(dir.as_deref(), dir.as_deref()) {
            Ok(b) => b,
            Err(e) => return fail("schema_error", format!("{e}")),
        };
        let mut ss = vec![];
        let mut outs = vec![];
        let mut nets: Vec<String> = schema.networks.iter().map(|n| n.name.clone()).collect();
        nets.dedup();
        for n in &nets {
            if let Some(e) = builder.entry_builder(n) {
                ss.push(add_extras(e.network_builder(), n, &extras[n.as_str()]));
                outs.push((n.clone(), names(&extras[n.as_str()]["outputs"])));
            }
        }
        let model = match builder.build() {
            Ok(m) => m,
            Err(e) => return fail("build_error", format!("{e}")),
        };
        domain = model.domain().clone();
        built = Built::Multi(Box::new(model));
        sinks = ss;
        outputs = outs;
    }

    let (times, scens) = describe_domain(&domain);
    let mut runs = vec![];
    let default_runs = vec![json!({"tag": "r"})];
    for spec in case["runs"].as_array().unwrap_or(&default_runs) {
        for s in &sinks {
            s.after.lock().unwrap().clear();
            s.before.lock().unwrap().clear();
        }
        let ctx = Ctx {
            sinks: &sinks,
            spec,
            outputs: outputs.clone(),
        };
        let mut r = match catch_unwind(AssertUnwindSafe(|| dispatch(&built, &ctx))) {
            Ok(v) => v,
            Err(p) => json!({"status": "panic", "error": panic_text(p)}),
        };
        let mut obs = serde_json::Map::new();
        for s in &sinks {
            obs.insert(
                s.net.clone(),
                json!({"after": table(&s.after), "before": table(&s.before)}),
            );
        }
        r["tag"] = spec["tag"].clone();
        if r["obs"].is_null() {
            r["obs"] = Value::Object(obs);
        }
        // Files written by this run, for outputs that are files.
        if let (Some(d), Some(files)) = (&dir, spec["files"].as_array()) {
            let mut m = serde_json::Map::new();
            for f in files {
                let p = d.join(f.as_str().unwrap());
                let text = std::fs::read_to_string(&p).unwrap_or_else(|_| "<missing>".to_string());
                let _ = std::fs::remove_file(&p);
                m.insert(f.as_str().unwrap().to_string(), Value::String(text));
            }
            r["files"] = Value::Object(m);
        }
        runs.push(r);
    }
    let mut out = json!({"id": id, "status": "ok", "times": times, "scens": scens, "runs": runs});
    if case["dump"].as_bool() == Some(true) {
        if let Built::Single(m) = &built {
            out["dump"] = dump(m.network());
        }
    }
    if !v1.is_null() {
        out["v1"] = v1;
    }
    if !reser.is_null() {
        out["reser"] = reser;
    }
    out
}
