// The distributed mesh against the generated one: every relation of every rank, in local or global numbering.
#pragma once
#include "meshgen.hpp"
#include "Geom/Mesh.hpp"
namespace MC
{
    using namespace W;
    using namespace DNDS;
    using namespace DNDS::Geom;
    using DNDS::index;
    using MG::X3;
    struct Own
    {
        std::vector<int> node, cell, bnd, face;
    };
    struct Board // shared by the ranks of one run
    {
        std::vector<Own> own;
        std::vector<std::vector<X3>> pts;          // per rank: output points
        std::vector<std::vector<long long>> num;   // per rank: numbers to compare
        std::vector<std::vector<std::vector<int>>> rows;
        void reset(int nr) { own.assign(nr, {}), pts.assign(nr, {}), num.assign(nr, {}), rows.assign(nr, {}); }
    };
    struct Bis // a refinement under way
    {
        std::unique_ptr<MG::Mesh> e2, e1;
        std::vector<std::vector<MG::Cell>> kids; // per rank
        std::vector<int> part;
        void reset(int nr) { kids.assign(nr, {}); }
    };
    struct Exp // what the mesh should be
    {
        const MG::Mesh *e = nullptr;
        const std::vector<int> *part = nullptr; // cell -> rank
        bool bndOrdered = true;                 // boundary elements keep their node order
        bool faces = false, n2cb = false, n2cbGhost = false;
        int iso = 0; // 1, 2: the order all cells have
    };
    inline X3 pt(const tPoint &p) { return {p[0], p[1], p[2]}; }
    struct Checker
    {
        UnstructuredMesh &m;
        const Exp &x;
        const MG::Mesh &e;
        Board &B;
        std::string where;
        int me, nr;
        std::vector<int> nid, cid, bid, fid;
        std::vector<index> goff[4];
        Checker(UnstructuredMesh &mm, const Exp &xx, Board &b, std::string w) : m(mm), x(xx), e(*xx.e), B(b), where(w), me(mm.mpi.rank), nr(mm.mpi.size) {}
#define MFAIL(cls, f, ...) sim_fail(cls, "rank %d, %s: " f, me, where.c_str(), ##__VA_ARGS__)
        void bar() { MPI_Barrier(m.mpi.comm); }
        std::vector<int> G[4];
        std::vector<index> O[4];
        void gather(int k)
        {
            G[k].clear(), O[k].assign(1, 0);
            for (int r = 0; r < nr; r++)
            {
                auto &w = B.own[r];
                auto &v = k == 0 ? w.node : k == 1 ? w.cell : k == 2 ? w.bnd : w.face;
                G[k].insert(G[k].end(), v.begin(), v.end());
                O[k].push_back((index)G[k].size());
            }
        }
        int atG(int k, index g)
        {
            static const char *nm[] = {"node", "cell", "bnd", "face"};
            if (g < 0 || g >= (index)G[k].size())
                MFAIL("mesh-index", "global %s index %lld of %zu", nm[k], (long long)g, G[k].size());
            return G[k][g];
        }
        int at(int k, index i, MeshAdjState st, bool mustFind = false)
        {
            auto &loc = k == 0 ? nid : k == 1 ? cid : k == 2 ? bid : fid;
            if (st == Adj_PointToGlobal)
                return atG(k, i);
            if (i >= 0)
            {
                if (i >= (index)loc.size())
                    MFAIL("mesh-index", "local index %lld of %zu (kind %d)", (long long)i, loc.size(), k);
                return loc[i];
            }
            if (mustFind)
                MFAIL("mesh-index", "index %lld stands for an entity this rank should hold (kind %d)", (long long)i, k);
            return atG(k, -1 - i);
        }
        template <class TP>
        void mapping(TP &pair, int k, const char *nm)
        { // the ghost mapping of this array says which global index each local row is
            if (!pair.trans.pLGhostMapping)
                return;
            auto &loc = k == 0 ? nid : k == 1 ? cid : k == 2 ? bid : fid;
            if (pair.Size() != (index)loc.size())
                MFAIL("mesh-size", "%s has %lld rows, expected %zu", nm, (long long)pair.Size(), loc.size());
            for (index i = 0; i < pair.Size(); i++)
            {
                index g = pair.trans.pLGhostMapping->operator()(-1, i);
                if (atG(k, g) != loc[i])
                    MFAIL("mesh-mapping", "%s row %lld maps to global %lld which is another entity", nm, (long long)i, (long long)g);
                if (i < pair.father->Size() && g != O[k][me] + i)
                    MFAIL("mesh-mapping", "%s row %lld has global index %lld", nm, (long long)i, (long long)g);
            }
        }
        int nodeAt(const X3 &p, const char *what)
        {
            auto it = e.byX.find(p);
            if (it == e.byX.end() || e.rep[it->second] != it->second || !e.nIn[it->second])
                MFAIL("mesh-node", "%s at (%.17g,%.17g,%.17g) is not a node of the mesh", what, p[0], p[1], p[2]);
            return it->second;
        }
        // node row -> input node ids
        template <class R>
        std::vector<int> ids(const R &row, const uint8_t *bits, MeshAdjState st, const char *what)
        {
            std::vector<int> v;
            for (int i = 0; i < (int)row.size(); i++)
            {
                int n = at(0, row[i], st, true);
                auto it = e.inBy.find({n, bits ? bits[i] : 0});
                if (it == e.inBy.end())
                    MFAIL("mesh-periodic", "%s: node %d with periodic bits %d does not exist", what, n, bits ? bits[i] : 0);
                v.push_back(it->second);
            }
            return v;
        }
        std::vector<int> cellIds(index i)
        {
            std::vector<uint8_t> b;
            if (m.isPeriodic)
            {
                if (m.cell2nodePbi.RowSize(i) != m.cell2node.RowSize(i))
                    MFAIL("mesh-periodic", "cell row %lld has %d bits for %d nodes", (long long)i, (int)m.cell2nodePbi.RowSize(i), (int)m.cell2node.RowSize(i));
                for (auto v : m.cell2nodePbi[i])
                    b.push_back(uint8_t(v));
            }
            std::vector<index> row = m.cell2node[i];
            return ids(row, m.isPeriodic ? b.data() : nullptr, m.adjPrimaryState, "cell");
        }
        void nodes()
        {
            nid.clear();
            for (index i = 0; i < m.coords.Size(); i++)
                nid.push_back(nodeAt(pt(m.coords[i]), "node"));
            B.own[me].node.assign(nid.begin(), nid.begin() + m.coords.father->Size());
            bar();
            gather(0);
            // each node has one owner, and that one uses it
            std::vector<int> cnt(e.x.size(), 0);
            for (int n : G[0])
                if (cnt[n]++)
                    MFAIL("mesh-node", "node %d has two owners", n);
            for (size_t n = 0; n < e.x.size(); n++)
                if (e.nIn[n] && e.rep[n] == (int)n && !cnt[n])
                    MFAIL("mesh-node", "node %zu has no owner", n);
        }
        void cells()
        {
            cid.clear();
            index nc = m.cell2node.Size(), nf = m.cell2node.father->Size();
            if (m.cellElemInfo.Size() != nc || m.cell2cell.Size() != nc || m.cellElemInfo.father->Size() != nf || m.cell2cell.father->Size() != nf)
                MFAIL("mesh-size", "cell arrays differ in size");
            for (index i = 0; i < nc; i++)
            {
                int t = m.cellElemInfo(i, 0).type;
                if (t < MG::L2 || t > MG::PY14 || (int)m.cell2node.RowSize(i) != MG::ed(t).nn)
                    MFAIL("mesh-cell", "cell %lld has type %d and %d nodes", (long long)i, t, (int)m.cell2node.RowSize(i));
                auto v = cellIds(i);
                auto it = e.cByKey.find(e.cellKey(v, t));
                if (it == e.cByKey.end())
                    MFAIL("mesh-cell", "cell %lld (type %d, nodes %s) is not a cell of the mesh", (long long)i, t, vstr(v).c_str());
                int c = it->second;
                if (v != e.c[c].n)
                    MFAIL("mesh-cell", "cell %d has nodes %s instead of %s", c, vstr(v).c_str(), vstr(e.c[c].n).c_str());
                if (m.cellElemInfo(i, 0).zone != e.c[c].zone)
                    MFAIL("mesh-cell", "cell %d has zone %d instead of %d", c, m.cellElemInfo(i, 0).zone, e.c[c].zone);
                cid.push_back(c);
            }
            B.own[me].cell.assign(cid.begin(), cid.begin() + nf);
            bar();
            gather(1);
            std::vector<int> cnt(e.c.size(), 0);
            for (int c : G[1])
                if (cnt[c]++)
                    MFAIL("mesh-cell", "cell %d is owned twice", c);
            for (size_t c = 0; c < e.c.size(); c++)
                if (!cnt[c])
                    MFAIL("mesh-cell", "cell %zu is owned by no rank", c);
            std::set<int> ghosts;
            for (index i = 0; i < nf; i++)
            {
                if ((*x.part)[cid[i]] != me)
                    MFAIL("mesh-cell", "cell %d belongs to rank %d", cid[i], (*x.part)[cid[i]]);
                for (int o : e.cellNb[cid[i]])
                    if ((*x.part)[o] != me)
                        ghosts.insert(o);
            }
            std::set<int> got(cid.begin() + nf, cid.end());
            if ((index)got.size() != nc - nf)
                MFAIL("mesh-ghost", "a ghost cell is listed twice");
            if (got != ghosts)
                MFAIL("mesh-ghost", "%zu ghost cells, expected %zu (the neighbours by vertex of owned cells)", got.size(), ghosts.size());
            std::set<int> need, own(nid.begin(), nid.begin() + m.coords.father->Size());
            for (int c : cid)
                for (int q : e.c[c].n)
                    if (!own.count(e.rep[q]))
                        need.insert(e.rep[q]);
            std::set<int> gn(nid.begin() + m.coords.father->Size(), nid.end());
            if ((index)gn.size() != m.coords.son->Size() || gn != need)
                MFAIL("mesh-ghost", "ghost nodes: %zu rows, %zu distinct, expected the %zu nodes of owned and ghost cells that are owned elsewhere", (size_t)m.coords.son->Size(), gn.size(), need.size());
            for (int n : own)
            {
                bool used = false;
                for (int c : e.node2cell[n])
                    used = used || (*x.part)[c] == me;
                if (!used)
                    MFAIL("mesh-node", "node %d is owned by a rank without a cell of it", n);
            }
            for (index i = 0; i < nc; i++)
            {
                std::set<int> s;
                for (auto j : m.cell2cell[i])
                    if (!s.insert(at(1, j, m.adjPrimaryState, i < nf)).second)
                        MFAIL("mesh-cell2cell", "cell %d lists a neighbour twice", cid[i]);
                s.erase(cid[i]);
                if (s != e.cellNb[cid[i]])
                    MFAIL("mesh-cell2cell", "cell %d (row %lld of %lld owned) has %zu neighbours, expected %zu", cid[i], (long long)i, (long long)nf, s.size(), e.cellNb[cid[i]].size());
            }
            mapping(m.coords, 0, "coords");
            mapping(m.cell2node, 1, "cell2node");
            mapping(m.cell2cell, 1, "cell2cell");
            mapping(m.cellElemInfo, 1, "cellElemInfo");
            if (m.isPeriodic)
                mapping(m.cell2nodePbi, 1, "cell2nodePbi");
            for (index i = 0; i < nc; i++)
            { // geometry as the solver asks for it
                tSmallCoords cs;
                m.GetCoordsOnCell(i, cs);
                for (int k = 0; k < (int)e.c[cid[i]].n.size(); k++)
                {
                    X3 p{cs(0, k), cs(1, k), cs(2, k)};
                    if (p != e.x[e.c[cid[i]].n[k]])
                        MFAIL("mesh-geometry", "cell %d node %d is at (%.17g,%.17g,%.17g)", cid[i], k, p[0], p[1], p[2]);
                }
            }
        }
        void bnds()
        {
            bid.clear();
            index nb = m.bnd2node.Size();
            if (m.bnd2cell.Size() != nb || m.bndElemInfo.Size() != nb || m.bnd2node.father->Size() != nb)
                MFAIL("mesh-size", "boundary arrays differ in size");
            for (index i = 0; i < nb; i++)
            {
                int t = m.bndElemInfo(i, 0).type;
                if (t < MG::L2 || t > MG::PY14 || (int)m.bnd2node.RowSize(i) != MG::ed(t).nn)
                    MFAIL("mesh-bnd", "boundary element %lld has type %d and %d nodes", (long long)i, t, (int)m.bnd2node.RowSize(i));
                std::vector<int> v;
                for (auto j : m.bnd2node[i])
                    v.push_back(at(0, j, m.adjPrimaryState, true));
                int c0 = at(1, m.bnd2cell(i, 0), m.adjPrimaryState, true);
                int fi = e.faceOfCell(c0, std::vector<int>(v.begin(), v.begin() + MG::ed(t).nv));
                if (fi < 0)
                    MFAIL("mesh-bnd", "boundary element %lld with nodes %s is not a face of its cell", (long long)i, vstr(v).c_str());
                auto &f = e.f[fi];
                int b = f.c[0] == c0 ? f.bnd[0] : f.c[1] == c0 ? f.bnd[1] : -1;
                if (b < 0)
                    MFAIL("mesh-bnd", "boundary element %lld points to cell %d, which has no such boundary", (long long)i, c0);
                auto w = e.repv(e.b[b].n, (int)e.b[b].n.size());
                if (x.bndOrdered ? v != w : MG::Mesh::sorted(v) != MG::Mesh::sorted(w))
                    MFAIL("mesh-bnd", "boundary element %d has nodes %s instead of %s", b, vstr(v).c_str(), vstr(w).c_str());
                if (t != e.b[b].type || m.bndElemInfo(i, 0).zone != e.b[b].zone)
                    MFAIL("mesh-bnd", "boundary element %d has type %d zone %d instead of %d, %d", b, t, m.bndElemInfo(i, 0).zone, e.b[b].type, e.b[b].zone);
                if ((*x.part)[c0] != me)
                    MFAIL("mesh-bnd", "boundary element %d is not on the rank of its cell", b);
                index o = m.bnd2cell(i, 1);
                if (o != UnInitIndex && at(1, o, m.adjPrimaryState) != (f.c[0] == c0 ? f.c[1] : f.c[0]))
                    MFAIL("mesh-bnd", "boundary element %d: the other cell is %d", b, at(1, o, m.adjPrimaryState));
                bid.push_back(b);
            }
            B.own[me].bnd = bid;
            bar();
            gather(2);
            std::vector<int> cnt(e.b.size(), 0);
            for (int b : G[2])
                if (cnt[b]++)
                    MFAIL("mesh-bnd", "boundary element %d is owned twice", b);
            if (G[2].size() != e.b.size())
                MFAIL("mesh-bnd", "%zu boundary elements of %zu", G[2].size(), e.b.size());
            mapping(m.bnd2node, 2, "bnd2node");
            mapping(m.bnd2cell, 2, "bnd2cell");
            mapping(m.bndElemInfo, 2, "bndElemInfo");
        }
        void faces()
        {
            fid.clear();
            index n = m.face2node.Size(), nf = m.face2node.father->Size();
            if (m.face2cell.Size() != n || m.faceElemInfo.Size() != n || m.face2cell.father->Size() != nf || m.faceElemInfo.father->Size() != nf ||
                (m.isPeriodic && m.face2nodePbi.Size() != n))
                MFAIL("mesh-size", "face arrays differ in size");
            std::vector<std::array<int, 2>> f2c(n, {-1, -1});
            for (index i = 0; i < n; i++)
            {
                int t = m.faceElemInfo(i, 0).type;
                if (t < MG::L2 || t > MG::PY14 || (int)m.face2node.RowSize(i) != MG::ed(t).nn)
                    MFAIL("mesh-face", "face %lld has type %d and %d nodes", (long long)i, t, (int)m.face2node.RowSize(i));
                std::vector<int> v;
                for (auto j : m.face2node[i])
                    v.push_back(at(0, j, m.adjFacialState, true));
                std::vector<uint8_t> bits;
                if (m.isPeriodic)
                {
                    if (m.face2nodePbi.RowSize(i) != m.face2node.RowSize(i))
                        MFAIL("mesh-face", "face %lld: bits and nodes differ in number", (long long)i);
                    for (auto q : m.face2nodePbi[i])
                        bits.push_back(uint8_t(q));
                }
                std::vector<index> row = m.face2node[i];
                auto vi = ids(row, m.isPeriodic ? bits.data() : nullptr, m.adjFacialState, "face");
                auto it = e.fByKey.find(e.fkey(vi, MG::ed(t).nv));
                if (it == e.fByKey.end())
                    MFAIL("mesh-face", "face %lld with nodes %s is not a face of the mesh", (long long)i, vstr(v).c_str());
                int f = it->second;
                auto &F = e.f[f];
                fid.push_back(f);
                for (int k = 0; k < 2; k++)
                    if (m.face2cell(i, k) != UnInitIndex)
                        f2c[i][k] = at(1, m.face2cell(i, k), m.adjFacialState, true);
                if (!(f2c[i][0] == F.c[0] && f2c[i][1] == F.c[1]) && !(f2c[i][0] == F.c[1] && f2c[i][1] == F.c[0] && F.c[1] >= 0))
                    MFAIL("mesh-face", "face %d lies between cells %d and %d, expected %d and %d", f, f2c[i][0], f2c[i][1], F.c[0], F.c[1]);
                int s = f2c[i][0] == F.c[0] ? 0 : 1;
                // listed as the first cell lists it
                auto &cc = e.c[F.c[s]];
                auto &lf = MG::ed(cc.type).f[F.lf[s]];
                if (t != lf.first)
                    MFAIL("mesh-face", "face %d has type %d instead of %d", f, t, lf.first);
                std::vector<int> w;
                for (int q : lf.second)
                    w.push_back(cc.n[q]);
                if (vi != w)
                    MFAIL("mesh-face", "face %d lists nodes %s, its first cell has %s", f, vstr(vi).c_str(), vstr(w).c_str());
                int b = F.bnd[s], z = b >= 0 ? e.b[b].zone : 0;
                if (m.faceElemInfo(i, 0).zone != z)
                    MFAIL("mesh-face", "face %d has zone %d instead of %d", f, m.faceElemInfo(i, 0).zone, z);
                if (m.adjPrimaryState == Adj_PointToLocal && m.adjFacialState == Adj_PointToLocal)
                {
                    tSmallCoords cs;
                    m.GetCoordsOnFace(i, cs);
                    for (int k = 0; k < (int)w.size(); k++)
                        if (X3{cs(0, k), cs(1, k), cs(2, k)} != e.x[w[k]])
                            MFAIL("mesh-geometry", "face %d node %d is elsewhere", f, k);
                }
                if (i < nf && (*x.part)[f2c[i][0]] != me)
                    MFAIL("mesh-face", "owned face %d has first cell %d of rank %d", f, f2c[i][0], (*x.part)[f2c[i][0]]);
            }
            auto &of = B.own[me].face;
            of.clear();
            for (index i = 0; i < nf; i++) // with the side that comes first
                of.push_back(fid[i]);
            bar();
            gather(3);
            std::vector<int> cnt(e.f.size(), 0);
            for (int f : G[3])
                if (cnt[f]++)
                    MFAIL("mesh-face", "face %d is owned twice", f);
            if (G[3].size() != e.f.size())
                MFAIL("mesh-face", "%zu faces of %zu are owned", G[3].size(), e.f.size());
            // every face of an owned cell once, and no other
            std::set<int> want, got(fid.begin(), fid.end());
            for (size_t c = 0; c < e.c.size(); c++)
                if ((*x.part)[c] == me)
                    want.insert(e.c2f[c].begin(), e.c2f[c].end());
            if ((index)got.size() != n || got != want)
                MFAIL("mesh-face", "%lld faces held, %zu distinct, expected the %zu of the owned cells", (long long)n, got.size(), want.size());
            for (index i = 0; i < m.cell2face.Size(); i++)
            {
                auto &w = e.c2f[cid[i]];
                if (m.cell2face.RowSize(i) != (int)w.size())
                    MFAIL("mesh-face", "cell %d lists %d faces", cid[i], (int)m.cell2face.RowSize(i));
                for (int k = 0; k < (int)w.size(); k++)
                {
                    index j = m.cell2face(i, k);
                    if (j == UnInitIndex)
                        MFAIL("mesh-face", "cell %d (row %lld) has no face %d", cid[i], (long long)i, k);
                    int f = at(3, j, m.adjC2FState, i < m.cell2face.father->Size());
                    if (f != w[k])
                        MFAIL("mesh-face", "cell %d (row %lld) lists face %d at position %d, expected %d", cid[i], (long long)i, f, k, w[k]);
                }
            }
            if (m.cell2face.Size() != m.cell2node.Size())
                MFAIL("mesh-size", "cell2face has %lld rows", (long long)m.cell2face.Size());
            if (m.bnd2face.size() != bid.size())
                MFAIL("mesh-face", "bnd2face has %zu entries for %zu boundary elements", m.bnd2face.size(), bid.size());
            for (size_t i = 0; i < bid.size(); i++)
            {
                auto &b = e.b[bid[i]];
                int f = e.fByKey.at(e.fkey(b.n, MG::ed(b.type).nv));
                index j = m.bnd2face[i];
                if (j < 0 ? b.zone > 0 : (j >= n || fid[j] != f))
                    MFAIL("mesh-face", "boundary element %d points to face row %lld", bid[i], (long long)j);
                if (b.zone > 0 && (!m.face2bnd.count(j) || m.face2bnd.at(j) != (index)i))
                    MFAIL("mesh-face", "face2bnd does not lead back to boundary element %d", bid[i]);
            }
            for (auto &[f, b] : m.face2bnd)
                if (f < 0 || f >= n || b < 0 || b >= (index)bid.size() || e.fByKey.at(e.fkey(e.b[bid[b]].n, MG::ed(e.b[bid[b]].type).nv)) != fid[f])
                    MFAIL("mesh-face", "face2bnd has (%lld, %lld)", (long long)f, (long long)b);
            mapping(m.face2node, 3, "face2node");
            mapping(m.face2cell, 3, "face2cell");
            mapping(m.faceElemInfo, 3, "faceElemInfo");
            if (m.isPeriodic)
                mapping(m.face2nodePbi, 3, "face2nodePbi");
            mapping(m.cell2face, 1, "cell2face");
        }
        void inverse()
        {
            index n = x.n2cbGhost ? m.coords.Size() : m.coords.father->Size();
            if ((x.n2cbGhost ? m.node2cell.Size() : m.node2cell.father->Size()) != n || (x.n2cbGhost ? m.node2bnd.Size() : m.node2bnd.father->Size()) != n)
                MFAIL("mesh-size", "node2cell or node2bnd has another size than the nodes");
            for (index i = 0; i < n; i++)
            {
                std::set<int> a, b;
                for (auto j : m.node2cell[i])
                    if (!a.insert(at(1, j, m.adjN2CBState, i < m.coords.father->Size())).second)
                        MFAIL("mesh-inverse", "node %d lists a cell twice", nid[i]);
                for (auto j : m.node2bnd[i])
                    if (!b.insert(at(2, j, m.adjN2CBState)).second)
                        MFAIL("mesh-inverse", "node %d lists a boundary element twice", nid[i]);
                if (a != e.node2cell[nid[i]])
                    MFAIL("mesh-inverse", "node %d (row %lld) lists %zu cells, expected %zu", nid[i], (long long)i, a.size(), e.node2cell[nid[i]].size());
                if (b != e.node2bnd[nid[i]])
                    MFAIL("mesh-inverse", "node %d (row %lld) lists %zu boundary elements, expected %zu", nid[i], (long long)i, b.size(), e.node2bnd[nid[i]].size());
            }
        }
        // arrays gathered on the output rank
        void serialRows(UnstructuredMeshSerialRW &rd, const std::vector<int> &nodes, const std::vector<std::vector<int>> &rows, const std::vector<std::array<int, 2>> &info)
        {
            if (me != rd.mRank)
            {
                if (rd.coordSerial->Size() || rd.cell2nodeSerial->Size() || rd.cellElemInfoSerial->Size())
                    MFAIL("mesh-serial-out", "arrays on a rank that does not write");
                return;
            }
            if (rd.coordSerial->Size() != (index)nodes.size() || rd.cell2nodeSerial->Size() != (index)rows.size() || rd.cellElemInfoSerial->Size() != (index)rows.size())
                MFAIL("mesh-serial-out", "%lld nodes, %lld cells, %lld cell infos gathered, expected %zu, %zu", (long long)rd.coordSerial->Size(), (long long)rd.cell2nodeSerial->Size(), (long long)rd.cellElemInfoSerial->Size(), nodes.size(), rows.size());
            for (size_t i = 0; i < nodes.size(); i++)
                if (pt((*rd.coordSerial)[i]) != e.x[nodes[i]])
                    MFAIL("mesh-serial-out", "gathered node %zu is elsewhere", i);
            for (size_t i = 0; i < rows.size(); i++)
            {
                if (rd.cell2nodeSerial->RowSize(i) != (int)rows[i].size() || (m.isPeriodic && rd.cell2nodePbiSerial->RowSize(i) != (int)rows[i].size()))
                    MFAIL("mesh-serial-out", "gathered cell %zu has %d nodes", i, (int)rd.cell2nodeSerial->RowSize(i));
                for (size_t k = 0; k < rows[i].size(); k++)
                {
                    index g = (*rd.cell2nodeSerial)(i, k);
                    int bits = m.isPeriodic ? uint8_t((*rd.cell2nodePbiSerial)(i, k)) : 0;
                    if (g < 0 || g >= (index)nodes.size() || !e.inBy.count({nodes[g], bits}) || e.inBy.at({nodes[g], bits}) != rows[i][k])
                        MFAIL("mesh-serial-out", "gathered cell %zu, node %zu is %lld with bits %d", i, k, (long long)g, bits);
                }
                if ((*rd.cellElemInfoSerial)(i, 0).type != info[i][0] || (*rd.cellElemInfoSerial)(i, 0).zone != info[i][1])
                    MFAIL("mesh-serial-out", "gathered cell %zu has type %d zone %d", i, (*rd.cellElemInfoSerial)(i, 0).type, (*rd.cellElemInfoSerial)(i, 0).zone);
            }
        }
        void serialOut(UnstructuredMeshSerialRW &rd)
        {
            std::vector<std::vector<int>> rows;
            std::vector<std::array<int, 2>> info;
            for (int c : G[1])
                rows.push_back(e.c[c].n), info.push_back({e.c[c].type, e.c[c].zone});
            serialRows(rd, G[0], rows, info);
        }
        static std::pair<int, std::vector<int>> vtkOf(int t)
        { // VTK file formats: cell type and order of the nodes
            switch (t)
            {
            case MG::L2: return {3, {0, 1}};
            case MG::L3: return {4, {0, 2, 1}}; // a polyline
            case MG::T3: return {5, {0, 1, 2}};
            case MG::T6: return {22, {0, 1, 2, 3, 4, 5}};
            case MG::Q4: return {9, {0, 1, 2, 3}};
            case MG::Q9: return {23, {0, 1, 2, 3, 4, 5, 6, 7}};
            case MG::TE4: return {10, {0, 1, 2, 3}};
            case MG::TE10: return {24, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}};
            case MG::H8: return {12, {0, 1, 2, 3, 4, 5, 6, 7}};
            case MG::H27: return {25, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 12, 13, 14, 15}};
            case MG::P6: return {13, {0, 1, 2, 3, 4, 5}};
            case MG::P18: return {26, {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 9, 10, 11}};
            case MG::PY5: return {14, {0, 1, 2, 3, 4}};
            default: return {27, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}};
            }
        }
        // connectivity for parallel output: rows and types of the cells of this rank
        void vtkRows(UnstructuredMesh &o, const std::vector<std::vector<int>> &rows, const std::vector<int> &types, const std::vector<int> &ownNodes)
        {
            auto &co = o.isPeriodic ? *o.coordsPeriodicRecreated.father : *o.coords.father;
            auto &P = B.pts[me];
            P.clear();
            for (index i = 0; i < co.Size(); i++)
            {
                P.push_back(pt(co[i]));
                auto it = e.byX.find(P.back());
                if (it == e.byX.end())
                    MFAIL("mesh-vtk", "output point %lld is no node of the mesh", (long long)i);
                index src = i;
                if (o.isPeriodic)
                {
                    if ((index)o.nodeRecreated2nodeLocal.size() != co.Size())
                        MFAIL("mesh-vtk", "nodeRecreated2nodeLocal has %zu entries", o.nodeRecreated2nodeLocal.size());
                    src = o.nodeRecreated2nodeLocal[i];
                }
                if (src < 0 || src >= (index)ownNodes.size() || ownNodes[src] != e.rep[it->second])
                    MFAIL("mesh-vtk", "output point %lld takes the data of node row %lld", (long long)i, (long long)src);
            }
            long long conn = 0;
            for (int t : types)
                conn += (long long)vtkOf(t).second.size();
            B.num[me] = {(long long)P.size(), (long long)rows.size(), conn};
            bar();
            std::vector<X3> all;
            long long off[3] = {0, 0, 0}, tot[3] = {0, 0, 0};
            for (int r = 0; r < nr; r++)
            {
                for (int k = 0; k < 3; k++)
                    off[k] += r < me ? B.num[r][k] : 0, tot[k] += B.num[r][k];
                all.insert(all.end(), B.pts[r].begin(), B.pts[r].end());
            }
            std::set<X3> uni(all.begin(), all.end());
            if (uni.size() != all.size())
                MFAIL("mesh-vtk", "an output point appears twice");
            if (o.vtkNodeOffset != off[0] || o.vtkCellOffset != off[1] || o.vtkNNodeGlobal != tot[0] || o.vtkNCellGlobal != tot[1] || o.vtkCell2NodeGlobalSiz != tot[2])
                MFAIL("mesh-vtk", "offsets %lld, %lld and totals %lld, %lld, %lld instead of %lld, %lld, %lld, %lld, %lld", (long long)o.vtkNodeOffset, (long long)o.vtkCellOffset, (long long)o.vtkNNodeGlobal, (long long)o.vtkNCellGlobal, (long long)o.vtkCell2NodeGlobalSiz, off[0], off[1], tot[0], tot[1], tot[2]);
            if (o.vtkCell2nodeOffsets.size() != rows.size() + 1 || o.vtkCellType.size() != rows.size() || (long long)o.vtkCell2node.size() != conn)
                MFAIL("mesh-vtk", "%zu offsets, %zu types, %zu entries for %zu cells with %lld entries", o.vtkCell2nodeOffsets.size(), o.vtkCellType.size(), o.vtkCell2node.size(), rows.size(), conn);
            long long at = 0;
            for (size_t i = 0; i < rows.size(); i++)
            {
                auto v = vtkOf(types[i]);
                if (o.vtkCellType[i] != v.first)
                    MFAIL("mesh-vtk", "cell %zu has VTK type %d", i, o.vtkCellType[i]);
                if (o.vtkCell2nodeOffsets[i] != off[2] + at)
                    MFAIL("mesh-vtk", "cell %zu starts at %lld instead of %lld", i, (long long)o.vtkCell2nodeOffsets[i], off[2] + at);
                for (int k : v.second)
                {
                    index g = o.vtkCell2node[at++];
                    if (g < 0 || g >= (index)all.size() || all[g] != e.x[rows[i][k]])
                        MFAIL("mesh-vtk", "cell %zu: output point %lld is not its node %d", i, (long long)g, k);
                }
            }
            if (o.vtkCell2nodeOffsets[rows.size()] != off[2] + at)
                MFAIL("mesh-vtk", "the last offset is %lld instead of %lld", (long long)o.vtkCell2nodeOffsets[rows.size()], off[2] + at);
            bar();
        }
        void vtk()
        {
            std::vector<std::vector<int>> rows;
            std::vector<int> types;
            for (index i = 0; i < m.cell2node.father->Size(); i++)
                rows.push_back(e.c[cid[i]].n), types.push_back(e.c[cid[i]].type);
            vtkRows(m, rows, types, std::vector<int>(nid.begin(), nid.begin() + m.coords.father->Size()));
        }
        std::vector<int> bnodes; // own boundary nodes
        std::vector<std::vector<int>> brows;
        std::vector<std::array<int, 2>> binfo;
        void bndMesh(UnstructuredMesh &bm)
        {
            bnodes.clear(), brows.clear(), binfo.clear();
            if (bm.isPeriodic != m.isPeriodic)
                MFAIL("mesh-bnd-mesh", "isPeriodic is %d", bm.isPeriodic);
            std::vector<int> bn;
            if (bm.node2parentNode.size() != (size_t)bm.coords.Size())
                MFAIL("mesh-bnd-mesh", "node2parentNode has %zu entries for %lld nodes", bm.node2parentNode.size(), (long long)bm.coords.Size());
            for (index i = 0; i < bm.coords.Size(); i++)
            {
                index j = bm.node2parentNode[i];
                if (j < 0 || j >= (index)nid.size() || pt(bm.coords[i]) != e.x[nid[j]])
                    MFAIL("mesh-bnd-mesh", "boundary node %lld does not match its parent node %lld", (long long)i, (long long)j);
                bn.push_back(nid[j]);
                if (i < bm.coords.father->Size())
                    bnodes.push_back(nid[j]);
            }
            if (m.node2bndNode.size() != nid.size())
                MFAIL("mesh-bnd-mesh", "node2bndNode has %zu entries", m.node2bndNode.size());
            for (size_t j = 0; j < nid.size(); j++)
            {
                index i = m.node2bndNode[j];
                bool on = !e.node2bnd[nid[j]].empty();
                if (on ? (i < 0 || i >= (index)bn.size() || bn[i] != nid[j]) : i >= 0)
                    MFAIL("mesh-bnd-mesh", "node %d (row %zu) is boundary node %lld", nid[j], j, (long long)i);
                if (on && (index)j < m.coords.father->Size() && i >= bm.coords.father->Size())
                    MFAIL("mesh-bnd-mesh", "own node %d is a ghost of the boundary mesh", nid[j]);
            }
            std::vector<int> use;
            for (size_t b = 0; b < bid.size(); b++)
                if (e.b[bid[b]].zone > 0)
                    use.push_back((int)b);
            if (bm.cell2node.father->Size() != (index)use.size() || bm.cell2node.Size() != (index)use.size() || bm.cell2parentCell.size() != use.size() || bm.cellElemInfo.Size() != (index)use.size())
                MFAIL("mesh-bnd-mesh", "%lld boundary cells, expected %zu", (long long)bm.cell2node.Size(), use.size());
            for (size_t i = 0; i < use.size(); i++)
            {
                auto &b = e.b[bid[use[i]]];
                auto &F = e.f[e.fByKey.at(e.fkey(b.n, MG::ed(b.type).nv))];
                auto &cc = e.c[F.c[0]];
                auto &lf = MG::ed(cc.type).f[F.lf[0]];
                std::vector<int> w;
                for (int q : lf.second)
                    w.push_back(cc.n[q]);
                if (bm.cell2parentCell[i] != use[i])
                    MFAIL("mesh-bnd-mesh", "boundary cell %zu comes from boundary element row %lld", i, (long long)bm.cell2parentCell[i]);
                if (bm.cellElemInfo(i, 0).type != b.type || bm.cellElemInfo(i, 0).zone != b.zone)
                    MFAIL("mesh-bnd-mesh", "boundary cell %zu has type %d zone %d", i, bm.cellElemInfo(i, 0).type, bm.cellElemInfo(i, 0).zone);
                if (bm.cell2node.RowSize(i) != (int)w.size())
                    MFAIL("mesh-bnd-mesh", "boundary cell %zu has %d nodes", i, (int)bm.cell2node.RowSize(i));
                for (size_t k = 0; k < w.size(); k++)
                {
                    index n = bm.cell2node(i, k);
                    int bits = bm.isPeriodic ? uint8_t(bm.cell2nodePbi(i, k)) : 0;
                    if (n < 0 || n >= (index)bn.size() || bn[n] != e.rep[w[k]] || bits != e.bits[w[k]])
                        MFAIL("mesh-bnd-mesh", "boundary cell %zu (element %d): node %zu is row %lld with bits %d", i, bid[use[i]], k, (long long)n, bits);
                }
                brows.push_back(w), binfo.push_back({b.type, b.zone});
            }
            // over all ranks each boundary node once
            auto &R = B.rows[me];
            R = brows;
            R.push_back(bnodes);
            std::vector<int> inf;
            for (auto &v : binfo)
                inf.push_back(v[0]), inf.push_back(v[1]);
            R.push_back(inf);
            bar();
            std::set<int> seen;
            for (int r = 0; r < nr; r++)
                for (int n : B.rows[r][B.rows[r].size() - 2])
                    if (!seen.insert(n).second || e.node2bnd[n].empty())
                        MFAIL("mesh-bnd-mesh", "node %d is owned twice or not on the boundary", n);
            for (size_t n = 0; n < e.x.size(); n++)
                if (!e.node2bnd[n].empty() && !seen.count((int)n))
                    MFAIL("mesh-bnd-mesh", "boundary node %zu is owned by no rank", n);
        }
        void bndSerialOut(UnstructuredMeshSerialRW &rb)
        {
            std::vector<int> nodes;
            std::vector<std::vector<int>> rows;
            std::vector<std::array<int, 2>> info;
            for (int r = 0; r < nr; r++)
            {
                auto &R = B.rows[r];
                rows.insert(rows.end(), R.begin(), R.end() - 2);
                auto &n = R[R.size() - 2];
                nodes.insert(nodes.end(), n.begin(), n.end());
                for (size_t k = 0; k + 1 < R.back().size(); k += 2)
                    info.push_back({R.back()[k], R.back()[k + 1]});
            }
            serialRows(rb, nodes, rows, info);
            bar();
        }
        void bndVtk(UnstructuredMesh &bm)
        {
            std::vector<int> types;
            for (auto &v : binfo)
                types.push_back(v[0]);
            vtkRows(bm, brows, types, bnodes);
        }
        static double flux(const std::vector<X3> &p)
        { // of x/3 through a line (2D: x/2), a triangle or a bilinear patch; odd in the orientation
            auto tri = [](const X3 &a, const X3 &b, const X3 &c)
            {
                return (a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6;
            };
            if (p.size() == 2)
                return (p[0][0] * p[1][1] - p[0][1] * p[1][0]) / 2;
            if (p.size() == 3)
                return tri(p[0], p[1], p[2]);
            return (tri(p[0], p[1], p[2]) + tri(p[0], p[2], p[3]) + tri(p[1], p[2], p[3]) + tri(p[1], p[3], p[0])) / 2;
        }
        double volume(const MG::Mesh &g, const MG::Cell &c)
        { // of the straight-sided cell
            double v = 0;
            for (auto &f : MG::ed(c.type).f)
            {
                std::vector<X3> p;
                for (int k = 0; k < MG::ed(f.first).nv; k++)
                    p.push_back(g.x[c.n[f.second[k]]]);
                v += flux(p);
            }
            return v;
        }
        // m is the bisected mesh; x.e the second-order one it was made from: the children must tile the parents
        void children(Bis &bs, const std::vector<int> &ppart)
        {
            nodes();
            auto &K = bs.kids[me];
            K.clear();
            for (index i = 0; i < m.cell2node.father->Size(); i++)
            {
                MG::Cell c;
                c.type = m.cellElemInfo(i, 0).type, c.zone = m.cellElemInfo(i, 0).zone;
                if (c.type < MG::L2 || c.type > MG::PY5 || (int)m.cell2node.RowSize(i) != MG::ed(c.type).nn)
                    MFAIL("mesh-bisect", "child %lld has type %d and %d nodes", (long long)i, c.type, (int)m.cell2node.RowSize(i));
                c.n = cellIds(i);
                K.push_back(c);
            }
            bar();
            if (me == 0)
            {
                auto d = std::make_unique<MG::Mesh>(e);
                d->o2 = false, d->cls = "mesh-bisect", d->c.clear(), d->b.clear();
                bs.part.clear();
                std::vector<std::set<int>> n2c(e.x.size()), pn(e.c.size());
                for (size_t c = 0; c < e.c.size(); c++)
                    for (int q : e.c[c].n)
                        n2c[q].insert((int)c), pn[c].insert(q);
                std::vector<int> cnt(e.c.size(), 0);
                std::vector<double> vol(e.c.size(), 0);
                for (int r = 0; r < nr; r++)
                    for (auto &k : bs.kids[r])
                    {
                        int par = -1;
                        for (int c : n2c[k.n[0]])
                        {
                            bool all = true;
                            for (int q : k.n)
                                all = all && pn[c].count(q);
                            if (all && par >= 0)
                                MFAIL("mesh-bisect", "child with nodes %s lies in two cells", vstr(k.n).c_str());
                            if (all)
                                par = c;
                        }
                        if (par < 0)
                            MFAIL("mesh-bisect", "child with nodes %s lies in no cell", vstr(k.n).c_str());
                        if (ppart[par] != r)
                            MFAIL("mesh-bisect", "child of cell %d is on rank %d, the cell on %d", par, r, ppart[par]);
                        if (e.c[par].zone != k.zone)
                            MFAIL("mesh-bisect", "child of cell %d has zone %d", par, k.zone);
                        cnt[par]++, vol[par] += volume(*d, k);
                        bs.part.push_back(r);
                        d->c.push_back(k);
                    }
                for (size_t c = 0; c < e.c.size(); c++)
                {
                    double v = volume(e, e.c[c]);
                    if (!cnt[c] || std::abs(v - vol[c]) > 1e-10 * (1 + std::abs(v)))
                        MFAIL("mesh-bisect", "the %d children of cell %zu (type %d) have volume %.12g, the cell %.12g", cnt[c], c, e.c[c].type, vol[c], v);
                }
                std::vector<std::set<int>> d2c(e.x.size());
                for (size_t c = 0; c < d->c.size(); c++)
                    for (int q : d->c[c].n)
                        d2c[q].insert((int)c);
                for (auto &b : e.b)
                {
                    std::vector<std::vector<int>> sub;
                    if (b.type == MG::L3)
                        sub = {{0, 2}, {2, 1}};
                    else if (b.type == MG::T6)
                        sub = {{0, 3, 5}, {3, 1, 4}, {5, 3, 4}, {5, 4, 2}};
                    else
                        sub = {{0, 4, 8, 7}, {4, 1, 5, 8}, {7, 8, 6, 3}, {8, 5, 2, 6}};
                    for (auto &sv : sub)
                    {
                        MG::Bnd nb;
                        nb.zone = b.zone, nb.type = sv.size() == 2 ? MG::L2 : sv.size() == 3 ? MG::T3 : MG::Q4;
                        for (int k : sv)
                            nb.n.push_back(b.n[k]);
                        for (int c : d2c[nb.n[0]])
                        {
                            bool all = true;
                            for (int q : nb.n)
                                all = all && d2c[q].count(c);
                            if (all)
                                nb.cell = c;
                        }
                        if (nb.cell < 0)
                            MFAIL("mesh-bisect", "no child has the boundary face %s", vstr(nb.n).c_str());
                        d->b.push_back(nb);
                    }
                }
                d->finalize();
                bs.e1 = std::move(d);
            }
            bar();
        }
        void all()
        {
            if (m.isPeriodic != e.periodic())
                MFAIL("mesh-periodic", "isPeriodic is %d", m.isPeriodic);
            if (m.dim != e.dim)
                MFAIL("mesh-size", "dim is %d", m.dim);
            nodes(), cells(), bnds();
            if (x.faces)
                faces();
            if (x.n2cb)
                inverse();
            bool o1 = m.IsO1(), o2 = m.IsO2();
            if (o1 == e.o2 || o2 != e.o2)
                MFAIL("mesh-order", "IsO1 says %d and IsO2 says %d of a mesh of order %d", o1, o2, e.o2 ? 2 : 1);
            if (m.NumCellGlobal() != (index)e.c.size() || m.NumNodeGlobal() != (index)G[0].size() || m.NumBndGlobal() != (index)e.b.size() ||
                (x.faces && m.NumFaceGlobal() != (index)e.f.size()))
                MFAIL("mesh-size", "a global count is wrong");
            bar();
        }
    };
    inline void check(UnstructuredMesh &m, const Exp &x, Board &B, const std::string &where)
    {
        Checker c(m, x, B, where);
        c.all();
    }
    // feeds a generated mesh to the reader as if it had been read on mRank, and distributes it
    inline void distribute(ssp<UnstructuredMesh> mesh, UnstructuredMeshSerialRW &rd, const MG::Mesh &g, std::vector<int> &part, int metis,
                           const UnstructuredMeshSerialRW::PartitionOptions &po)
    {
        auto &mpi = mesh->getMPI();
        mesh->mRank = rd.mRank;
        for (int p = 1; p <= 3; p++)
        {
            auto t = g.trans(p);
            mesh->periodicInfo.translation[p] = tPoint{t[0], t[1], t[2]};
        }
        rd.mode = SerialReadAndDistribute;
        rd.dataIsSerialIn = true;
        DNDS_MAKE_SSP(rd.cell2nodeSerial, mpi);
        DNDS_MAKE_SSP(rd.bnd2nodeSerial, mpi);
        DNDS_MAKE_SSP(rd.coordSerial, mpi);
        DNDS_MAKE_SSP(rd.bnd2cellSerial, mpi);
        DNDS_MAKE_SSP(rd.cellElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        DNDS_MAKE_SSP(rd.bndElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        if (mpi.rank == rd.mRank)
        {
            rd.coordSerial->Resize(g.x.size());
            for (size_t i = 0; i < g.x.size(); i++)
                (*rd.coordSerial)[i] = tPoint{g.x[i][0], g.x[i][1], g.x[i][2]};
            rd.cell2nodeSerial->Resize(g.c.size());
            rd.cellElemInfoSerial->Resize(g.c.size());
            for (size_t i = 0; i < g.c.size(); i++)
            {
                rd.cell2nodeSerial->ResizeRow(i, g.c[i].n.size());
                for (size_t k = 0; k < g.c[i].n.size(); k++)
                    (*rd.cell2nodeSerial)(i, k) = g.c[i].n[k];
                (*rd.cellElemInfoSerial)(i, 0).type = g.c[i].type;
                (*rd.cellElemInfoSerial)(i, 0).zone = g.c[i].zone;
            }
            rd.bnd2nodeSerial->Resize(g.b.size());
            rd.bnd2cellSerial->Resize(g.b.size());
            rd.bndElemInfoSerial->Resize(g.b.size());
            for (size_t i = 0; i < g.b.size(); i++)
            {
                rd.bnd2nodeSerial->ResizeRow(i, g.b[i].n.size());
                for (size_t k = 0; k < g.b[i].n.size(); k++)
                    (*rd.bnd2nodeSerial)(i, k) = g.b[i].n[k];
                (*rd.bnd2cellSerial)(i, 0) = g.b[i].cell;
                (*rd.bnd2cellSerial)(i, 1) = UnInitIndex;
                (*rd.bndElemInfoSerial)(i, 0).type = g.b[i].type;
                (*rd.bndElemInfoSerial)(i, 0).zone = g.b[i].zone;
            }
        }
        rd.cell2nodeSerial->Compress();
        rd.bnd2nodeSerial->Compress();
        rd.Deduplicate1to1Periodic(1e-9);
        rd.BuildCell2Cell();
        if (metis)
        {
            rd.MeshPartitionCell2Cell(po);
            if (mpi.rank == rd.mRank)
            {
                if (rd.cellPartition.size() != g.c.size())
                    sim_fail("mesh-partition", "%zu entries for %zu cells", rd.cellPartition.size(), g.c.size());
                for (auto r : rd.cellPartition)
                    if (r < 0 || r >= mpi.size)
                        sim_fail("mesh-partition", "a cell is sent to rank %d of %d", r, mpi.size);
                part.assign(rd.cellPartition.begin(), rd.cellPartition.end());
            }
        }
        else
        {
            rd.cnPart = mpi.size;
            if (mpi.rank == rd.mRank)
                rd.cellPartition.assign(part.begin(), part.end());
        }
        rd.PartitionReorderToMeshCell2Cell();
        mesh->BuildGhostPrimary();
        mesh->AdjGlobal2LocalPrimary();
    }
}
