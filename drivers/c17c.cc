// C17: the dependencies. VC-EXTERN-STD
// VC-OPAQUE-RE: _ZNK?4Dune3Amg16VertexProperties _ZNK?4Dune3Amg14EdgeProperties
#include <config.h>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include "layout.hh"
using namespace Dune; using namespace Dune::Amg;
using M = BCRSMatrix<FieldMatrix<double,1,1>>; using MG = MatrixGraph<const M>; using G = PropertiesGraph<MG,VertexProperties,EdgeProperties,IdentityMap,IdentityMap>;
// a criterion that is known only by its protocol
struct Crit { typedef M Matrix; int state; void init(const M*); void initRow(const M::row_type&, int); void examine(const M::ConstColIterator&); void examine(G&, const G::EdgeIterator&, const M::ConstColIterator&); bool isIsolated(); };
extern "C" void c_depend(G& g, const M& m, const Crit& c, bool first) { buildDependency(g, m, c, first); }
LAY(g_graph, G, graph_) LAY(g_vp, G, vertexProperties_) LAY(g_ep, G, edgeProperties_) LAYSIZE(ep, EdgeProperties) LAYSIZE(vp, VertexProperties) LAY(mg_m, MG, matrix_) LAY(mg_start, MG, start_)
using EI = G::EdgeIterator; using CI = M::ConstColIterator;
LAY(ei_source, MG::EdgeIterator, source_) LAY(ei_block, MG::EdgeIterator, block_) LAY(ei_edge, MG::EdgeIterator, edge_) LAY(ci_p, CI, p) LAY(ci_j, CI, j) LAY(ci_i, CI, i)
LAY_BCRS(M)
