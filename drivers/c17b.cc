// C17: the parts of the aggregation. VC-EXTERN-STD
// VC-OPAQUE-RE: 9AggregateI.*(3addE|4sizeE|11connectSizeE|2idEv|10invalidateE|4seedE) 10AggregatorI.*(17twoWayConnections|17oneWayConnections|10admissible|10neighbours|12connectivity|17noFrontNeighbours) DebugStream _ZNK?4Dune3Amg16VertexProperties _ZNK?4Dune3Amg14EdgeProperties St6vectorImSaImEE(7reserveEm|9push_backERKm|6resizeEm|5clearEv|D2Ev)$ SLList.*9push_back
#include <config.h>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include "layout.hh"
using namespace Dune; using namespace Dune::Amg;
using M = BCRSMatrix<FieldMatrix<double,1,1>>; using MG = MatrixGraph<const M>; using G = PropertiesGraph<MG,VertexProperties,EdgeProperties,IdentityMap,IdentityMap>; using AM = AggregatesMap<std::size_t>; using Cr = UnSymmetricCriterion<M,FirstDiagonal>;
using Ag = Aggregator<G>;
extern "C" void c_grow(Ag& ag, const std::size_t& seed, const AM& a, const Cr& c) { ag.growAggregate(seed, a, c); }
extern "C" void c_growiso(Ag& ag, const std::size_t& seed, const AM& a, const Cr& c) { ag.growIsolatedAggregate(seed, a, c); }
extern "C" std::size_t c_merge(const Ag& ag, const std::size_t& v, const AM& a) { return ag.mergeNeighbour(v, a); }
extern "C" void c_allocate(AM& a, std::size_t n) { a.allocate(n); }
extern "C" void c_construct(AM* a, std::size_t n) { new (a) AM(n); }
LAY(ag_front, Ag, front_) LAY(ag_agg, Ag, aggregate_) LAY(am_p, AM, aggregates_) LAY(am_n, AM, noVertices_) LAY(g_graph, G, graph_) LAY(g_vp, G, vertexProperties_) LAYSIZE(vp, VertexProperties) LAY(mg_m, MG, matrix_) LAY(mg_start, MG, start_) LAY(m_n, M, n)
LAY(cr_skip, Cr, skipiso_) LAY(cr_max, Cr, maxAggregateSize_) LAY(cr_min, Cr, minAggregateSize_) LAY(cr_dist, Cr, maxDistance_) LAY(cr_con, Cr, connectivity_)
LAY_BCRS(M)
LAY(g_ep, G, edgeProperties_) LAYSIZE(ep, EdgeProperties)
