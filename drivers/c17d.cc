// C17: the criteria. VC-EXTERN-STD
// VC-OPAQUE-RE: _ZNK?4Dune3Amg14EdgeProperties (MatrixGraph|PropertiesGraph).*8findEdgeE _ZNK4Dune11DenseMatrix.*infinity_norm
#include <config.h>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include "layout.hh"
using namespace Dune; using namespace Dune::Amg;
using M = BCRSMatrix<FieldMatrix<double,BLOCK,BLOCK>>; using MG = MatrixGraph<const M>; using G = PropertiesGraph<MG,VertexProperties,EdgeProperties,IdentityMap,IdentityMap>;
#ifdef SYMCRIT
using Cr = SymmetricCriterion<M,STRENGTH>;
#else
using Cr = UnSymmetricCriterion<M,STRENGTH>;
#endif
using CI = M::ConstColIterator; using EI = G::EdgeIterator;
extern "C" void c_init(Cr& c, const M* m) { c.init(m); }
extern "C" void c_initrow(Cr& c, const M& m, int i) { c.initRow(m[i], i); }
extern "C" void c_examine(Cr& c, const CI& col) { c.examine(col); }
extern "C" void c_edge(Cr& c, G& g, const EI& e, const CI& col) { c.examine(g, e, col); }
extern "C" bool c_isolated(Cr& c) { return c.isIsolated(); }
LAY(cr_matrix, Cr, matrix_) LAY(cr_max, Cr, maxValue_) LAY(cr_row, Cr, row_) LAY(cr_diag, Cr, diagonal_) LAY(cr_alpha, Cr, alpha_) LAY(cr_beta, Cr, beta_)
LAYSIZE(ep, EdgeProperties) LAY(g_ep, G, edgeProperties_) LAY(g_graph, G, graph_)
LAY(ei_source, MG::EdgeIterator, source_) LAY(ei_block, MG::EdgeIterator, block_) LAY(ei_edge, MG::EdgeIterator, edge_) LAY(ci_p, CI, p) LAY(ci_j, CI, j) LAY(ci_i, CI, i)
LAY_BCRS(M)
extern "C" { extern const unsigned long LAY_ei_graph; const unsigned long LAY_ei_graph = sizeof(EI)-8; }
