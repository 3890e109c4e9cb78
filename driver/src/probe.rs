//! Observation points: a recorder reading metrics after the allocation, and a parameter reading
//! metrics in the "before" phase. Both use only the library's public extension traits.
use crate::q;
use pywr_core::metric::{MetricConsumerPhase, MetricF64, MetricF64ResolutionError, UnresolvedMetricF64};
use pywr_core::models::ModelDomain;
use pywr_core::network::{Network, ResolutionMaps, UnresolvedEdge};
use pywr_core::node::UnresolvedNode;
use pywr_core::parameters::{
    BuiltParameter, GeneralBeforeParameter, GeneralCalculationError, GeneralParameter, GeneralParameterContext,
    GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
    ParameterName, ParameterReturnValue, ParameterState,
};
use pywr_core::recorders::{
    MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderInternalState, RecorderMeta,
    RecorderSaveError, RecorderSetupError,
};
use pywr_core::scenario::ScenarioIndex;
use pywr_core::state::State;
use pywr_core::timestep::Timestep;
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// (time-step index, simulation id) -> observed values
pub type Table = Arc<Mutex<BTreeMap<(usize, usize), Vec<i64>>>>;

fn node(v: &Value) -> UnresolvedNode {
    UnresolvedNode::new(v["node"].as_str().unwrap(), v["sub"].as_str())
}

fn node_from(v: &Value) -> UnresolvedNode {
    match v {
        Value::Array(a) => UnresolvedNode::new(a[0].as_str().unwrap(), a[1].as_str()),
        v => UnresolvedNode::new(v.as_str().unwrap(), None),
    }
}

/// The unit a quantity is observed in
pub fn unit(v: &Value) -> f64 {
    v["u"].as_f64().unwrap_or(1.0)
}

pub fn metric(v: &Value) -> UnresolvedMetricF64 {
    use UnresolvedMetricF64 as M;
    match v["m"].as_str().unwrap() {
        "in" => M::NodeInFlow(node(v)),
        "out" => M::NodeOutFlow(node(v)),
        "vol" => M::NodeVolume(node(v)),
        "pvol" => M::NodeProportionalVolume(node(v)),
        "maxvol" => M::NodeMaxVolume(node(v)),
        "maxflow" => M::NodeMaxFlow(node(v)),
        "agg_in" => M::AggregatedNodeInFlow(node(v)),
        "agg_out" => M::AggregatedNodeOutFlow(node(v)),
        "agg_vol" => M::AggregatedStorageNodeVolume(node(v)),
        "agg_pvol" => M::AggregatedStorageNodeProportionalVolume(node(v)),
        "edge" => M::EdgeFlow(UnresolvedEdge::new(node_from(&v["from"]), node_from(&v["to"]))),
        "vs_vol" => M::VirtualStorageVolume(node(v)),
        "vs_pvol" => M::VirtualStorageProportionalVolume(node(v)),
        "multi_in" => M::MultiNodeInFlow {
            nodes: v["nodes"].as_array().unwrap().iter().map(node_from).collect(),
            name: "probe".to_string(),
        },
        "multi_out" => M::MultiNodeOutFlow {
            nodes: v["nodes"].as_array().unwrap().iter().map(node_from).collect(),
            name: "probe".to_string(),
        },
        "transfer" => M::InterNetworkTransfer(v["name"].as_str().unwrap().to_string()),
        "lit" => v["v"].as_f64().map(|x| x / 1000.0).unwrap().into(),
        "param" => {
            let name = ParameterName::new_with_subname(
                v["name"].as_str().unwrap(),
                v["sub"].as_str(),
                v["parent"].as_str(),
            );
            let return_value = match v["ret"].as_str() {
                Some("after") => ParameterReturnValue::After,
                Some("after_init") => ParameterReturnValue::AfterOrElseInitial,
                _ => ParameterReturnValue::Before,
            };
            match v["key"].as_str() {
                Some(k) => M::MultiParameterValue {
                    name,
                    key: k.to_string(),
                    return_value,
                },
                None => M::ParameterValue { name, return_value },
            }
        }
        m => panic!("unknown probe metric {m}"),
    }
}

#[derive(Debug)]
pub struct ProbeRecorderBuilder {
    pub name: String,
    pub metrics: Vec<UnresolvedMetricF64>,
    pub units: Vec<f64>,
    pub sink: Table,
}

#[derive(Debug)]
struct ProbeRecorder {
    name: String,
    metrics: Vec<MetricF64>,
    units: Vec<f64>,
    sink: Table,
}

impl RecorderBuilder for ProbeRecorderBuilder {
    fn name(&self) -> &str {
        &self.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let metrics = self
            .metrics
            .iter()
            .map(|m| m.resolve(maps, MetricConsumerPhase::After))
            .collect::<Result<Vec<_>, _>>()
            .map_err(|source| RecorderBuilderError::ResolveMetricF64Error {
                attr: "probe".to_string(),
                source,
            })?;
        Ok(Box::new(ProbeRecorder {
            name: self.name,
            metrics,
            units: self.units.clone(),
            sink: self.sink,
        }))
    }
}

impl Recorder for ProbeRecorder {
    fn meta(&self) -> &RecorderMeta {
        unreachable!("the probe recorder only has a name")
    }
    fn name(&self) -> &str {
        &self.name
    }
    fn setup(
        &self,
        _domain: &ModelDomain,
        _model: &Network,
    ) -> Result<Option<Box<dyn RecorderInternalState>>, RecorderSetupError> {
        Ok(None)
    }
    fn save(
        &self,
        timestep: &Timestep,
        scenario_indices: &[ScenarioIndex],
        model: &Network,
        state: &[State],
        _metric_set_states: &[Vec<MetricSetState>],
        _internal_state: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut sink = self.sink.lock().unwrap();
        for si in scenario_indices {
            let st = &state[si.simulation_id()];
            let vals = self
                .metrics
                .iter()
                .zip(&self.units)
                .map(|(m, u)| m.get_value(model, st).map(|v| q(v / u)))
                .collect::<Result<Vec<_>, _>>()?;
            sink.insert((timestep.index, si.simulation_id()), vals);
        }
        Ok(())
    }
}

#[derive(Debug)]
pub struct BeforeProbeBuilder {
    pub name: ParameterName,
    pub metrics: Vec<UnresolvedMetricF64>,
    pub units: Vec<f64>,
    pub sink: Table,
}

#[derive(Debug)]
struct BeforeProbe {
    meta: ParameterMeta,
    metrics: Vec<MetricF64>,
    units: Vec<f64>,
    sink: Table,
}

impl ParameterBuilder<f64> for BeforeProbeBuilder {
    fn name(&self) -> &ParameterName {
        &self.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
        let mut metrics = Vec::new();
        let mut missing = None;
        for m in &self.metrics {
            match m.resolve(maps, MetricConsumerPhase::Before) {
                Ok(m) => metrics.push(m),
                Err(MetricF64ResolutionError::ParameterNotFound { parameter }) => {
                    missing = Some(parameter);
                    break;
                }
                Err(source) => {
                    return Err(ParameterBuildError::ResolveMetricF64Error {
                        attr: "probe".to_string(),
                        source,
                    });
                }
            }
        }
        if let Some(parameter_not_found) = missing {
            return Ok(MaybeBuiltParameter::Retry {
                builder: self,
                parameter_not_found,
            });
        }
        let p = BeforeProbe {
            meta: ParameterMeta::new(self.name.clone()),
            metrics,
            units: self.units.clone(),
            sink: self.sink.clone(),
        };
        Ok(BuiltParameter::General(GeneralParameterEntry::before(p)).into())
    }
}

impl Parameter for BeforeProbe {
    fn meta(&self) -> &ParameterMeta {
        &self.meta
    }
}

impl GeneralParameter for BeforeProbe {
    fn as_parameter(&self) -> &dyn Parameter {
        self
    }
}

impl GeneralBeforeParameter<f64> for BeforeProbe {
    fn before(
        &self,
        ctx: GeneralParameterContext<'_>,
        _internal_state: &mut Option<Box<dyn ParameterState>>,
    ) -> Result<f64, GeneralCalculationError> {
        let vals = self
            .metrics
            .iter()
            .zip(&self.units)
            .map(|(m, u)| m.get_value(ctx.network, ctx.state).map(|v| q(v / u)))
            .collect::<Result<Vec<_>, _>>()?;
        self.sink
            .lock()
            .unwrap()
            .insert((ctx.timestep.index, ctx.scenario_index.simulation_id()), vals);
        Ok(0.0)
    }
}
