// Generated meshes with a reference model: every node, cell, face and boundary element has an identity that does
// not depend on ranks or numbering.
#pragma once
#include "common.hpp"
namespace MG
{
    using namespace W;
    using X3 = std::array<double, 3>;
    enum
    {
        L2 = 1,
        T3 = 2,
        Q4 = 3,
        TE4 = 4,
        H8 = 5,
        P6 = 6,
        PY5 = 7,
        L3 = 8,
        T6 = 9,
        Q9 = 10,
        TE10 = 11,
        H27 = 12,
        P18 = 13,
        PY14 = 14
    };
    // the element definitions of the CGNS standard (SIDS), zero based; face lists include the high-order nodes
    struct ED
    {
        int dim, nv, nn;
        std::vector<std::vector<int>> span;              // of each high-order node (indices of vertices)
        std::vector<std::pair<int, std::vector<int>>> f; // face type, node positions (vertices first)
    };
    inline std::vector<std::vector<int>> z(std::vector<std::vector<int>> v)
    {
        for (auto &r : v)
            for (auto &i : r)
                i--;
        return v;
    }
    inline const ED &ed(int t)
    {
        static const std::map<int, ED> m = []
        {
            std::map<int, ED> m;
            auto F = [](std::vector<std::pair<int, std::vector<int>>> v)
            {
                for (auto &r : v)
                    for (auto &i : r.second)
                        i--;
                return v;
            };
            m[L2] = {1, 2, 2, {}, {}};
            m[L3] = {1, 2, 3, z({{1, 2}}), {}};
            m[T3] = {2, 3, 3, {}, F({{L2, {1, 2}}, {L2, {2, 3}}, {L2, {3, 1}}})};
            m[T6] = {2, 3, 6, z({{1, 2}, {2, 3}, {3, 1}}), F({{L3, {1, 2, 4}}, {L3, {2, 3, 5}}, {L3, {3, 1, 6}}})};
            m[Q4] = {2, 4, 4, {}, F({{L2, {1, 2}}, {L2, {2, 3}}, {L2, {3, 4}}, {L2, {4, 1}}})};
            m[Q9] = {2, 4, 9, z({{1, 2}, {2, 3}, {3, 4}, {4, 1}, {1, 2, 3, 4}}), F({{L3, {1, 2, 5}}, {L3, {2, 3, 6}}, {L3, {3, 4, 7}}, {L3, {4, 1, 8}}})};
            m[TE4] = {3, 4, 4, {}, F({{T3, {1, 3, 2}}, {T3, {1, 2, 4}}, {T3, {2, 3, 4}}, {T3, {3, 1, 4}}})};
            m[TE10] = {3, 4, 10, z({{1, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 4}, {3, 4}}), F({{T6, {1, 3, 2, 7, 6, 5}}, {T6, {1, 2, 4, 5, 9, 8}}, {T6, {2, 3, 4, 6, 10, 9}}, {T6, {3, 1, 4, 7, 8, 10}}})};
            m[H8] = {3, 8, 8, {}, F({{Q4, {1, 4, 3, 2}}, {Q4, {1, 2, 6, 5}}, {Q4, {2, 3, 7, 6}}, {Q4, {3, 4, 8, 7}}, {Q4, {1, 5, 8, 4}}, {Q4, {5, 6, 7, 8}}})};
            m[H27] = {3, 8, 27, z({{1, 2}, {2, 3}, {3, 4}, {4, 1}, {1, 5}, {2, 6}, {3, 7}, {4, 8}, {5, 6}, {6, 7}, {7, 8}, {8, 5}, {1, 4, 3, 2}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 4, 8, 7}, {1, 5, 8, 4}, {5, 6, 7, 8}, {1, 2, 3, 4, 5, 6, 7, 8}}),
                      F({{Q9, {1, 4, 3, 2, 12, 11, 10, 9, 21}}, {Q9, {1, 2, 6, 5, 9, 14, 17, 13, 22}}, {Q9, {2, 3, 7, 6, 10, 15, 18, 14, 23}}, {Q9, {3, 4, 8, 7, 11, 16, 19, 15, 24}}, {Q9, {1, 5, 8, 4, 13, 20, 16, 12, 25}}, {Q9, {5, 6, 7, 8, 17, 18, 19, 20, 26}}})};
            m[P6] = {3, 6, 6, {}, F({{Q4, {1, 2, 5, 4}}, {Q4, {2, 3, 6, 5}}, {Q4, {3, 1, 4, 6}}, {T3, {1, 3, 2}}, {T3, {4, 5, 6}}})};
            m[P18] = {3, 6, 18, z({{1, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 5}, {3, 6}, {4, 5}, {5, 6}, {6, 4}, {1, 2, 5, 4}, {2, 3, 6, 5}, {3, 1, 4, 6}}),
                      F({{Q9, {1, 2, 5, 4, 7, 11, 13, 10, 16}}, {Q9, {2, 3, 6, 5, 8, 12, 14, 11, 17}}, {Q9, {3, 1, 4, 6, 9, 10, 15, 12, 18}}, {T6, {1, 3, 2, 9, 8, 7}}, {T6, {4, 5, 6, 13, 14, 15}}})};
            m[PY5] = {3, 5, 5, {}, F({{Q4, {1, 4, 3, 2}}, {T3, {1, 2, 5}}, {T3, {2, 3, 5}}, {T3, {3, 4, 5}}, {T3, {4, 1, 5}}})};
            m[PY14] = {3, 5, 14, z({{1, 2}, {2, 3}, {3, 4}, {4, 1}, {1, 5}, {2, 5}, {3, 5}, {4, 5}, {1, 4, 3, 2}}),
                       F({{Q9, {1, 4, 3, 2, 9, 8, 7, 6, 14}}, {T6, {1, 2, 5, 6, 11, 10}}, {T6, {2, 3, 5, 7, 12, 11}}, {T6, {3, 4, 5, 8, 13, 12}}, {T6, {4, 1, 5, 9, 10, 13}}})};
            return m;
        }();
        return m.at(t);
    }
    inline int elevated(int t) { return t + 7; }

    struct Cell
    {
        int type = 0, zone = 0;
        std::vector<int> n; // input node ids
    };
    struct Bnd
    {
        int type = 0, zone = 0, cell = -1;
        std::vector<int> n;
    };
    struct Face // derived
    {
        int type = 0;
        std::vector<int> key; // sorted representative vertices
        int c[2] = {-1, -1}, lf[2] = {-1, -1};
        int bnd[2] = {-1, -1}; // boundary element on the side of c[i] (periodic faces have two)
    };
    struct Mesh
    {
        int dim = 2;
        bool o2 = false;
        std::array<int, 3> n{1, 1, 1};
        std::array<int, 3> per{0, 0, 0}; // 0, or the number (1..3) of the periodicity of this direction
        std::array<double, 3> L{0, 0, 0};
        std::vector<X3> x;
        std::vector<int> rep;      // input node -> input node that represents it
        std::vector<uint8_t> bits; // periodic bits of the input node relative to its representative
        std::vector<Cell> c;
        std::vector<Bnd> b;
        // derived
        std::map<X3, int> byX; // coordinates of representatives and of all input nodes
        std::vector<Face> f;
        std::map<std::vector<int>, int> fByKey, cByKey, bByKey;
        std::vector<std::vector<int>> c2f;         // per cell, per local face
        std::vector<std::set<int>> node2cell;      // by representative, all nodes
        std::vector<std::set<int>> node2bnd;       // by representative
        std::vector<std::set<int>> cellNb;         // by shared vertices
        std::map<std::pair<int, int>, int> inBy;   // (representative, bits) -> input node
        std::vector<char> nIn;                     // used by a cell
        const char *cls = "harness";               // what a non-conforming mesh is reported as
        bool periodic() const { return per[0] || per[1] || per[2]; }
        X3 trans(int p) const // translation of periodicity p
        {
            X3 r{0, 0, 0};
            for (int d = 0; d < 3; d++)
                if (per[d] == p)
                    r[d] = L[d];
            return r;
        }
        static std::vector<int> sorted(std::vector<int> v)
        {
            std::sort(v.begin(), v.end());
            return v;
        }
        std::vector<int> repv(const std::vector<int> &v, int k) const
        {
            std::vector<int> r;
            for (int i = 0; i < k; i++)
                r.push_back(rep[v[i]]);
            return r;
        }
        // faces are told apart by their vertices and how their periodic bits differ from each other (k input nodes)
        std::vector<int> fkey(const std::vector<int> &v, int k) const
        {
            std::vector<std::pair<int, int>> q;
            for (int i = 0; i < k; i++)
                q.push_back({rep[v[i]], bits[v[i]]});
            std::sort(q.begin(), q.end());
            std::vector<int> r;
            for (auto &a : q)
                r.push_back(a.first * 8 + (a.second ^ q[0].second));
            return r;
        }
        // the face of a cell with the given representatives as vertices, or -1
        int faceOfCell(int cell, const std::vector<int> &reps) const
        {
            auto want = sorted(reps);
            for (int q : c2f[cell])
                if (f[q].key == want)
                    return q;
            return -1;
        }
        // cells are told apart by their nodes with bits: input node ids of the vertices
        std::vector<int> cellKey(const std::vector<int> &n, int type) const
        {
            std::vector<int> v(n.begin(), n.begin() + ed(type).nv);
            v.push_back(-type);
            return sorted(v);
        }
        void finalize()
        {
            byX.clear(), f.clear(), fByKey.clear(), cByKey.clear(), bByKey.clear();
            inBy.clear();
            for (int i = 0; i < (int)x.size(); i++)
                byX[x[i]] = i, inBy[{rep[i], bits[i]}] = i;
            node2cell.assign(x.size(), {}), node2bnd.assign(x.size(), {}), cellNb.assign(c.size(), {}), c2f.assign(c.size(), {});
            std::vector<std::set<int>> v2c(x.size());
            for (int i = 0; i < (int)c.size(); i++)
            {
                auto &e = ed(c[i].type);
                cByKey[cellKey(c[i].n, c[i].type)] = i;
                for (int k = 0; k < e.nn; k++)
                {
                    node2cell[rep[c[i].n[k]]].insert(i);
                    if (k < e.nv)
                        v2c[rep[c[i].n[k]]].insert(i);
                }
                for (int j = 0; j < (int)e.f.size(); j++)
                {
                    std::vector<int> in;
                    for (int q = 0; q < ed(e.f[j].first).nv; q++)
                        in.push_back(c[i].n[e.f[j].second[q]]);
                    auto k = fkey(in, (int)in.size());
                    auto it = fByKey.find(k);
                    if (it == fByKey.end())
                    {
                        Face nf;
                        nf.type = e.f[j].first, nf.key = sorted(repv(in, (int)in.size())), nf.c[0] = i, nf.lf[0] = j;
                        it = fByKey.emplace(k, (int)f.size()).first;
                        f.push_back(nf);
                    }
                    else
                    {
                        auto &ff = f[it->second];
                        if (ff.c[1] >= 0)
                            sim_fail(cls, "mesh: a face with three cells");
                        ff.c[1] = i, ff.lf[1] = j;
                    }
                    c2f[i].push_back(it->second);
                }
            }
            for (int i = 0; i < (int)c.size(); i++)
                for (int k = 0; k < ed(c[i].type).nv; k++)
                    for (int o : v2c[rep[c[i].n[k]]])
                        if (o != i)
                            cellNb[i].insert(o);
            for (int i = 0; i < (int)b.size(); i++)
            {
                for (int k : b[i].n)
                    node2bnd[rep[k]].insert(i);
                bByKey[sorted(std::vector<int>(b[i].n.begin(), b[i].n.begin() + ed(b[i].type).nv))] = i;
                auto &ff = f[fByKey.at(fkey(b[i].n, ed(b[i].type).nv))];
                if (ff.c[0] == b[i].cell)
                    ff.bnd[0] = i;
                else if (ff.c[1] == b[i].cell)
                    ff.bnd[1] = i;
                else
                    sim_fail(cls, "mesh: boundary element of another cell");
            }
            nIn.assign(x.size(), 0);
            for (auto &cc : c)
                for (int q : cc.n)
                    nIn[q] = nIn[rep[q]] = 1;
            for (auto &ff : f)
                if (ff.c[1] < 0 && ff.bnd[0] < 0)
                    sim_fail(cls, "mesh: a one-sided face without a boundary element");
        }
        // the second-order mesh of the same cells (mid nodes at the averages of their spans)
        Mesh elevate(std::map<std::vector<int>, int> *spanOut = nullptr) const
        {
            Mesh r = *this;
            r.o2 = true;
            std::map<std::vector<int>, int> sp;
            auto mid = [&](const std::vector<int> &v) -> int
            {
                auto k = sorted(v);
                auto it = sp.find(k);
                if (it != sp.end())
                    return it->second;
                X3 s{0, 0, 0};
                for (int i : k)
                    for (int d = 0; d < 3; d++)
                        s[d] += x[i][d];
                for (int d = 0; d < 3; d++)
                    s[d] /= double(k.size());
                uint8_t bt = 7;
                for (int i : k)
                    bt &= bits[i];
                int id = (int)r.x.size();
                r.x.push_back(s), r.bits.push_back(bt), r.rep.push_back(-1);
                sp[k] = id;
                return id;
            };
            for (auto &cc : r.c)
            {
                auto v = cc.n;
                cc.type = elevated(cc.type);
                for (auto &s : ed(cc.type).span)
                {
                    std::vector<int> w;
                    for (int i : s)
                        w.push_back(v[i]);
                    cc.n.push_back(mid(w));
                }
            }
            for (auto &bb : r.b)
            {
                auto v = bb.n;
                bb.type = elevated(bb.type);
                for (auto &s : ed(bb.type).span)
                {
                    std::vector<int> w;
                    for (int i : s)
                        w.push_back(v[i]);
                    bb.n.push_back(mid(w));
                }
            }
            std::map<X3, int> at;
            for (int i = 0; i < (int)r.x.size(); i++)
                at[r.x[i]] = i;
            for (int i = (int)x.size(); i < (int)r.x.size(); i++)
            {
                X3 m = r.x[i];
                for (int p = 1; p <= 3; p++)
                    if (r.bits[i] & (1 << (p - 1)))
                    {
                        X3 t = trans(p);
                        for (int d = 0; d < 3; d++)
                            m[d] -= t[d];
                    }
                auto it = at.find(m);
                if (it == at.end())
                    sim_fail("harness", "generated mesh: no main node of an elevated donor");
                r.rep[i] = it->second;
            }
            if (spanOut)
                *spanOut = sp;
            r.finalize();
            return r;
        }
    };
    struct GenOpt
    {
        int maxCells2 = 30, maxCells3 = 24;
        int p3 = 35, pPer = 35, pHole = 25, pO2 = 0, pJit = 60;
        bool cellZones = true;
        bool shuffle = true;
        int forceDim = 0;
        bool planar = false; // faces stay plane
        int minPer = 3;      // least number of cells along a periodic direction
    };
    inline Mesh generate(const GenOpt &o)
    {
        Mesh m;
        m.dim = o.forceDim ? o.forceDim : (PB(o.p3) ? 3 : 2);
        bool per = PB(o.pPer);
        int maxC = m.dim == 3 ? o.maxCells3 : o.maxCells2;
        for (int d = 0; d < m.dim; d++)
            m.n[d] = 1 + int(P(m.dim == 3 ? 3 : 6));
        if (per)
        {
            auto ids = perm(3);
            int which = 1 + int(P((1 << m.dim) - 1));
            for (int d = 0; d < m.dim; d++)
                if (which & (1 << d))
                {
                    m.per[d] = ids[d] + 1;
                    m.n[d] = std::max(o.minPer, m.n[d]);
                }
        }
        auto nc = [&]
        { return m.n[0] * m.n[1] * m.n[2]; };
        while (nc() > maxC)
        {
            int d = int(std::max_element(m.n.begin(), m.n.end()) - m.n.begin()), lo = m.per[d] ? o.minPer : 1;
            if (m.n[d] <= lo)
            {
                d = -1;
                for (int k = 0; k < m.dim; k++)
                    if (m.n[k] > (m.per[k] ? o.minPer : 1))
                        d = k;
                if (d < 0)
                    break;
            }
            m.n[d]--;
        }
        for (int d = 0; d < m.dim; d++)
            m.L[d] = m.n[d];
        int jit = PB(o.pJit) ? 1 : 0;
        uint64_t salt = sim_rand64(CH_PLAN);
        int nx = m.n[0] + 1, ny = m.n[1] + 1, nz = m.dim == 3 ? m.n[2] + 1 : 1;
        auto wrap = [&](int d, int i)
        { return m.per[d] ? i % m.n[d] : i; };
        auto lat = [&](int i, int j, int k) -> X3
        {
            int q[3] = {i, j, k};
            X3 r;
            for (int d = 0; d < 3; d++)
            {
                r[d] = q[d];
                if (jit && d < m.dim)
                {
                    uint64_t h = o.planar && m.dim == 3
                                     ? hmix(hmix(salt, d), wrap(d, q[d]))
                                     : hmix(hmix(hmix(hmix(salt, d), wrap(0, i)), wrap(1, j)), wrap(2, k));
                    r[d] += (int(h % 25) - 12) / 64.;
                }
            }
            return r;
        };
        // which lattice cells exist, and how each is cut
        std::vector<char> hole(nc(), 0);
        auto ci = [&](int i, int j, int k)
        { return (k * m.n[1] + j) * m.n[0] + i; };
        if (nc() > 2 && PB(o.pHole))
            for (int t = 1 + int(P(3)); t > 0; t--)
            {
                int i = int(P(m.n[0])), j = int(P(m.n[1])), k = int(P(m.n[2]));
                int q[3] = {i, j, k};
                bool ok = true;
                for (int d = 0; d < m.dim; d++)
                    if (m.per[d] && (q[d] == 0 || q[d] == m.n[d] - 1))
                        ok = false;
                if (ok)
                    hole[ci(i, j, k)] = 1;
            }
        if (std::count(hole.begin(), hole.end(), 0) == 0)
            hole[0] = 0;
        int style = int(P(4)); // 0 all simple, 1 all cut, 2/3 mixed
        bool kuhn = m.dim == 3 && P(4) == 3;
        std::map<std::array<int, 4>, int> nid; // lattice (and 4th = 1: centre) -> raw id
        std::vector<std::array<int, 4>> raw;
        auto node = [&](int i, int j, int k, int cen) -> int
        {
            std::array<int, 4> key{i, j, k, cen};
            auto it = nid.find(key);
            if (it != nid.end())
                return it->second;
            nid[key] = (int)raw.size();
            raw.push_back(key);
            return (int)raw.size() - 1;
        };
        auto rot = [&](std::vector<int> v, std::vector<std::vector<int>> cyc)
        { // rotate each cycle by the same step
            int n = (int)cyc[0].size(), s = int(P(n));
            auto r = v;
            for (auto &cy : cyc)
                for (int i = 0; i < n; i++)
                    r[cy[i]] = v[cy[(i + s) % n]];
            return r;
        };
        std::vector<Cell> cs;
        auto add = [&](int t, std::vector<int> n)
        {
            Cell c;
            c.type = t, c.zone = o.cellZones ? int(P(3)) : 0;
            switch (t)
            {
            case T3: c.n = rot(n, {{0, 1, 2}}); break;
            case Q4: c.n = rot(n, {{0, 1, 2, 3}}); break;
            case TE4: c.n = rot(n, {{0, 1, 2}}); break;
            case H8: c.n = rot(n, {{0, 1, 2, 3}, {4, 5, 6, 7}}); break;
            case P6: c.n = rot(n, {{0, 1, 2}, {3, 4, 5}}); break;
            case PY5: c.n = rot(n, {{0, 1, 2, 3}}); break;
            }
            cs.push_back(c);
        };
        std::map<std::pair<int, int>, int> colCut;
        for (int k = 0; k < m.n[2]; k++)
            for (int j = 0; j < m.n[1]; j++)
                for (int i = 0; i < m.n[0]; i++)
                {
                    if (hole[ci(i, j, k)])
                        continue;
                    auto N = [&](int a, int b, int c)
                    { return node(i + a, j + b, m.dim == 3 ? k + c : 0, 0); };
                    auto col = std::make_pair(i, j);
                    if (!colCut.count(col)) // 0 whole, 1/2 cut along a diagonal
                        colCut[col] = style == 0 ? 0 : style == 1 ? 1 + int(P(2)) : int(P(3));
                    int cut = colCut[col];
                    if (m.dim == 2)
                    {
                        int a = N(0, 0, 0), b = N(1, 0, 0), c = N(1, 1, 0), d = N(0, 1, 0);
                        if (cut == 0)
                            add(Q4, {a, b, c, d});
                        else if (cut == 1)
                            add(T3, {a, b, c}), add(T3, {a, c, d});
                        else
                            add(T3, {a, b, d}), add(T3, {b, c, d});
                        continue;
                    }
                    int v[8] = {N(0, 0, 0), N(1, 0, 0), N(1, 1, 0), N(0, 1, 0), N(0, 0, 1), N(1, 0, 1), N(1, 1, 1), N(0, 1, 1)};
                    if (kuhn)
                    { // six tetrahedra around the main diagonal 0-6, one per order of the axes
                        static const int step[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
                        int p[3] = {0, 1, 2};
                        do
                        {
                            int q[3] = {0, 0, 0}, w[4];
                            w[0] = N(0, 0, 0);
                            for (int s = 0; s < 3; s++)
                            {
                                for (int d = 0; d < 3; d++)
                                    q[d] += step[p[s]][d];
                                w[s + 1] = N(q[0], q[1], q[2]);
                            }
                            bool even = (p[0] < p[1]) ^ (p[1] < p[2]) ^ (p[0] < p[2]);
                            if (even)
                                add(TE4, {w[0], w[1], w[2], w[3]});
                            else
                                add(TE4, {w[0], w[2], w[1], w[3]});
                        } while (std::next_permutation(p, p + 3));
                        continue;
                    }
                    if (cut == 0)
                    {
                        if (style >= 1 && P(3) == 2)
                        {
                            int cen = node(i, j, k, 1);
                            for (auto &f : ed(H8).f)
                            { // the base is seen from inside
                                std::vector<int> q;
                                for (int t = 3; t >= 0; t--)
                                    q.push_back(v[f.second[t]]);
                                q.push_back(cen);
                                add(PY5, q);
                            }
                        }
                        else
                            add(H8, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
                    }
                    else if (cut == 1)
                        add(P6, {v[0], v[1], v[2], v[4], v[5], v[6]}), add(P6, {v[0], v[2], v[3], v[4], v[6], v[7]});
                    else
                        add(P6, {v[0], v[1], v[3], v[4], v[5], v[7]}), add(P6, {v[1], v[2], v[3], v[5], v[6], v[7]});
                }
        // node numbering and cell order
        int nn = (int)raw.size();
        std::vector<int> np(nn), cp(cs.size());
        std::iota(np.begin(), np.end(), 0), std::iota(cp.begin(), cp.end(), 0);
        if (o.shuffle && PB(70))
        {
            std::vector<std::pair<uint64_t, int>> a, b;
            uint64_t s2 = sim_rand64(CH_PLAN);
            for (int i = 0; i < nn; i++)
                a.push_back({hmix(s2, i), i});
            for (int i = 0; i < (int)cs.size(); i++)
                b.push_back({hmix(s2 ^ 0x55, i), i});
            std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
            for (int i = 0; i < nn; i++)
                np[i] = a[i].second;
            for (int i = 0; i < (int)cs.size(); i++)
                cp[i] = b[i].second;
        }
        m.x.resize(nn), m.rep.resize(nn), m.bits.assign(nn, 0);
        for (int i = 0; i < nn; i++)
        {
            auto &k = raw[i];
            X3 p;
            if (k[3])
            {
                p = {0, 0, 0};
                for (int t = 0; t < 8; t++)
                {
                    X3 q = lat(k[0] + (t & 1), k[1] + ((t >> 1) & 1), k[2] + (t >> 2));
                    for (int d = 0; d < 3; d++)
                        p[d] += q[d] / 8;
                }
            }
            else
                p = lat(k[0], k[1], k[2]);
            m.x[np[i]] = p;
            auto mk = k;
            if (!k[3])
                for (int d = 0; d < m.dim; d++)
                    if (m.per[d] && k[d] == m.n[d])
                    {
                        m.bits[np[i]] |= 1 << (m.per[d] - 1);
                        mk[d] = 0;
                    }
            m.rep[np[i]] = np[nid.at(mk)];
        }
        m.c.resize(cs.size());
        for (int i = 0; i < (int)cs.size(); i++)
        {
            m.c[cp[i]] = cs[i];
            for (auto &q : m.c[cp[i]].n)
                q = np[q];
        }
        // boundary elements: faces seen once by input nodes
        std::map<std::vector<int>, std::vector<std::pair<int, int>>> fm;
        for (int i = 0; i < (int)m.c.size(); i++)
        {
            auto &e = ed(m.c[i].type);
            for (int j = 0; j < (int)e.f.size(); j++)
            {
                std::vector<int> k;
                for (int q : e.f[j].second)
                    k.push_back(m.c[i].n[q]);
                fm[Mesh::sorted(k)].push_back({i, j});
            }
        }
        const int zs[] = {2, 3, 4, 11, 13, 21, 22};
        std::vector<int> sideZone;
        for (int i = 0; i < 8; i++)
            sideZone.push_back(zs[P(7)]);
        std::map<int, std::array<int, 4>> lk;
        for (int i = 0; i < nn; i++)
            lk[np[i]] = raw[i];
        for (auto &[k, v] : fm)
        {
            if (v.size() != 1)
                continue;
            Bnd b;
            b.cell = v[0].first;
            auto &e = ed(m.c[b.cell].type);
            b.type = e.f[v[0].second].first;
            for (int q : e.f[v[0].second].second)
                b.n.push_back(m.c[b.cell].n[q]);
            // which side
            int zone = sideZone[6 + int(P(2))]; // a hole
            for (int d = 0; d < m.dim; d++)
                for (int s = 0; s < 2; s++)
                {
                    bool all = true;
                    for (int q : b.n)
                        if (lk[q][3] || lk[q][d] != (s ? m.n[d] : 0))
                            all = false;
                    if (all)
                        zone = m.per[d] ? -(m.per[d] + (s ? 3 : 0)) : sideZone[2 * d + s];
                }
            b.zone = zone;
            int sft = int(P(b.n.size())); // any starting node, either sense
            std::rotate(b.n.begin(), b.n.begin() + sft, b.n.end());
            if (PB(20))
                std::reverse(b.n.begin(), b.n.end());
            m.b.push_back(b);
        }
        if (o.shuffle && PB(50))
        {
            auto p = perm((int)m.b.size());
            auto old = m.b;
            for (int i = 0; i < (int)old.size(); i++)
                m.b[i] = old[p[i]];
        }
        if (PB(o.pO2))
            return m.elevate();
        m.finalize();
        return m;
    }
    inline bool connected(const Mesh &m) // over faces
    {
        std::vector<char> seen(m.c.size(), 0);
        std::vector<int> q{0};
        seen[0] = 1;
        for (size_t h = 0; h < q.size(); h++)
            for (int f : m.c2f[q[h]])
                for (int o : m.f[f].c)
                    if (o >= 0 && !seen[o])
                        seen[o] = 1, q.push_back(o);
        return q.size() == m.c.size();
    }
    // cell -> rank
    inline std::vector<int> partition(const Mesh &m, int np)
    {
        std::vector<int> r(m.c.size(), 0);
        int kind = int(P(5));
        switch (kind)
        {
        case 0: // blocks in input order
            for (size_t i = 0; i < r.size(); i++)
                r[i] = int(i * np / r.size());
            break;
        case 1: // slabs in space
        case 2:
        {
            int d = int(P(m.dim));
            for (size_t i = 0; i < r.size(); i++)
            {
                double s = 0;
                for (int q : m.c[i].n)
                    s += m.x[q][d];
                r[i] = std::min(np - 1, std::max(0, int(s / m.c[i].n.size() / m.n[d] * np)));
            }
            if (kind == 2)
            {
                auto p = perm(np);
                for (auto &v : r)
                    v = p[v];
            }
            break;
        }
        case 3:
            for (auto &v : r)
                v = int(P(np));
            break;
        case 4: // nearly everything on one rank
        {
            int big = int(P(np));
            for (auto &v : r)
                v = PB(15) ? int(P(np)) : big;
            break;
        }
        }
        if (np > 1 && PB(15))
        { // one rank gets nothing
            int e = int(P(np)), t = (e + 1) % np;
            for (auto &v : r)
                if (v == e)
                    v = t;
        }
        return r;
    }
}
