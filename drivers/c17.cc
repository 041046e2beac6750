// C17: aggregation. VC-EXTERN-STD
// VC-OPAQUE-RE: 9AggregateI.*(seedE|3addE|4sizeE|clearE|C2E|D2E|2idEv|10invalidateE) 10AggregatorI.*(13growAggregate|21growIsolatedAggregate|11unmarkFront|17twoWayConnections|17oneWayConnections|10admissible|10neighbours|8distance|14mergeNeighbour|12connectivity) 15buildDependency DebugStream 16VertexProperties(8isolated|14excludedBorder|8setFront|10resetFront|5front)E 14EdgeProperties(7depends|10influences|8isStrong|8isTwoWay|8isOneWay)E 5TimerE 6Timer St6vectorImSaImEE(7reserveEm|9push_backERKm|6resizeEm|D2Ev)$
#include <config.h>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include "layout.hh"
using namespace Dune; using namespace Dune::Amg;
using M = BCRSMatrix<FieldMatrix<double,1,1>>; using MG = MatrixGraph<const M>; using G = PropertiesGraph<MG,VertexProperties,EdgeProperties,IdentityMap,IdentityMap>; using AM = AggregatesMap<std::size_t>; using Cr = UnSymmetricCriterion<M,FirstDiagonal>;
using Ag = Aggregator<G>;
extern "C" void c_build(const M& m, G& g, AM& a, const Cr& c, Ag& ag, bool first, int* r) { auto t = ag.build(m, g, a, c, first); r[0]=std::get<0>(t); r[1]=std::get<1>(t); r[2]=std::get<2>(t); r[3]=std::get<3>(t); }
LAY(ag_front, Ag, front_) LAY(ag_agg, Ag, aggregate_) LAY(am_p, AM, aggregates_) LAY(g_graph, G, graph_) LAY(g_vp, G, vertexProperties_) LAYSIZE(vp, VertexProperties) LAY(mg_m, MG, matrix_) LAY(m_n, M, n)
LAY(cr_skip, Cr, skipiso_) LAY(cr_max, Cr, maxAggregateSize_) LAY(cr_min, Cr, minAggregateSize_) LAY(cr_dist, Cr, maxDistance_) LAY(cr_con, Cr, connectivity_)
