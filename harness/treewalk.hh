// Structural walk of a quiescent tree: every invariant a well-formed tree has.
#ifndef VERIF_TREEWALK_HH
#define VERIF_TREEWALK_HH
#include "treecommon.hh"

struct WalkStats { long leaves = 0, internodes = 0, layers = 0, keys = 0, maxheight = 0, emptyleaves = 0, ksuf_keys = 0, emptylayers = 0;
    std::map<size_t, long> bylen; std::map<int, long> bylayer; std::map<int, long> leafsize[2]; };

template <typename P> struct TreeWalk {
    typedef Masstree::node_base<P> node;
    typedef Masstree::leaf<P> leaf;
    typedef Masstree::internode<P> internode;
    typedef typename leaf::permuter_type perm_t;
    WalkStats st;
    std::vector<std::pair<std::string, uint64_t>> found;
    bool drained;        // all deferred collection has run
    bool aborted = false;  // an aborted insertion may leave a fresh, never filled leaf

    static std::string slice(uint64_t ik, int len) {
        std::string r;
        for (int i = 0; i < len; ++i) r.push_back((char) (ik >> (56 - 8 * i)));
        return r;
    }
    static node* true_root(node* n) {
        for (int i = 0; i < 64 && !n->is_root(); ++i) n = n->maybe_parent();
        PBT_CHECK(n->is_root(), "structure: root of a layer is not reachable through parent links");
        return n;
    }
    void node_common(node* n, node* parent, bool isroot, const std::string& pre) {
        PBT_CHECK(!n->locked(), "structure: node left locked (prefix %s)", pbt::hexs(pre).c_str());
        PBT_CHECK(!n->inserting() && !n->splitting(), "structure: node left marked as changing (prefix %s)", pbt::hexs(pre).c_str());
        PBT_CHECK(!n->deleted(), "structure: deleted node reachable (prefix %s)", pbt::hexs(pre).c_str());
        // (a leaf split off a root leaf keeps the root mark; nothing starts a descent there)
        PBT_CHECK(n->is_root() == isroot || (!isroot && n->isleaf()), "structure: root mark wrong (%d, expected %d)", n->is_root(), isroot);
        PBT_CHECK(n->parent() == parent, "structure: parent link wrong (prefix %s)", pbt::hexs(pre).c_str());
    }
    // [lo, hi): ikey bounds; hi valid if have_hi
    void visit(node* n, node* parent, bool isroot, uint64_t lo, bool first, uint64_t hi, bool have_hi, const std::string& pre, int layer,
               uint32_t maxh, std::vector<leaf*>& leaves, int depth) {
        node_common(n, parent, isroot, pre);
        PBT_CHECK(depth < 60, "structure: runaway depth");
        if (depth > st.maxheight) st.maxheight = depth;
        if (n->isleaf()) {
            leaf* lf = static_cast<leaf*>(n);
            ++st.leaves;
            leaves.push_back(lf);
            perm_t perm = lf->permutation();
            unsigned seen = 0;
            for (int i = 0; i < leaf::width; ++i) {
                int x = perm[i];
                PBT_CHECK(x >= 0 && x < leaf::width && !(seen >> x & 1), "structure: slot order is not a permutation");
                seen |= 1u << x;
            }
            ++st.leafsize[layer > 0][perm.size()];
            PBT_CHECK(perm.size() <= leaf::width, "structure: leaf size %d", perm.size());
            PBT_CHECK(!lf->deleted_layer(), "structure: deleted layer reachable");
            if (!lf->prev_)
                PBT_CHECK(first, "structure: leaf without predecessor is not the first of its layer");
            else
                PBT_CHECK(lf->ikey_bound() >= lo && (!have_hi || lf->ikey_bound() < hi), "structure: leaf lower bound outside its separators");
            if (perm.size() == 0) {
                ++st.emptyleaves;
                PBT_CHECK(first || aborted, "structure: empty leaf remains linked in the tree (prefix %s)", pbt::hexs(pre).c_str());
            }
            uint64_t pik = 0; int pkl = -1; bool have = false;
            for (int i = 0; i < perm.size(); ++i) {
                int p = perm[i];
                uint64_t ik = lf->ikey0_[p];
                int kl = lf->keylenx_[p];
                PBT_CHECK(kl <= 8 || kl == leaf::ksuf_keylenx || kl == leaf::layer_keylenx, "structure: key length code %d", kl);
                int ord = kl <= 8 ? kl : 9;
                PBT_CHECK(!have || pik < ik || (pik == ik && pkl < ord), "structure: keys out of order in a leaf (prefix %s, %016lx/%d after %016lx/%d)",
                          pbt::hexs(pre).c_str(), ik, kl, pik, pkl);
                have = true; pik = ik; pkl = ord;
                PBT_CHECK((first || ik >= lo) && (!have_hi || ik < hi), "structure: key outside its separators (prefix %s)", pbt::hexs(pre).c_str());
                PBT_CHECK(!lf->prev_ || ik >= lf->ikey_bound(), "structure: key below its leaf's lower bound");
                if (kl <= 8)
                    PBT_CHECK(kl == 8 || (ik << (8 * kl)) == 0 || kl == 0, "structure: bytes beyond a short key are not zero");
                if (kl == leaf::layer_keylenx) {
                    node* sub = lf->lv_[p].layer();
                    PBT_CHECK(sub, "structure: null layer");
                    layer_walk(true_root(sub), pre + slice(ik, 8), layer + 1);
                } else {
                    std::string k = pre + slice(ik, std::min(kl, 8));
                    if (kl == leaf::ksuf_keylenx) {
                        Str s = lf->ksuf(p);
                        PBT_CHECK(s.len > 0, "structure: empty key suffix");
                        k.append(s.s, s.len);
                        ++st.ksuf_keys;
                    }
                    found.emplace_back(k, (uint64_t) lf->lv_[p].value());
                    ++st.keys;
                    ++st.bylen[k.size()];
                    ++st.bylayer[layer];
                }
            }
        } else {
            internode* in = static_cast<internode*>(n);
            ++st.internodes;
            PBT_CHECK(in->size() <= internode::width, "structure: internode size");
            PBT_CHECK(in->height_ < maxh, "structure: internode height %u below height %u", in->height_, maxh);
            for (int i = 0; i < in->size(); ++i) {
                PBT_CHECK(i == 0 || in->ikey0_[i - 1] < in->ikey0_[i], "structure: separators out of order");
                PBT_CHECK((first || in->ikey0_[i] >= lo) && (!have_hi || in->ikey0_[i] < hi), "structure: separator out of range");
            }
            for (int i = 0; i <= in->size(); ++i) {
                node* c = in->child_[i];
                uint64_t clo = i == 0 ? lo : in->ikey0_[i - 1];
                bool chh = i < in->size() || have_hi;
                uint64_t chi = i < in->size() ? in->ikey0_[i] : hi;
                if (!c) {
                    PBT_CHECK(i == 0 && in->size() > 0 && !first && lo == in->ikey0_[0], "structure: missing child covers part of the key space");
                    continue;
                }
                PBT_CHECK(i == 0 || (lo < in->ikey0_[i - 1] || first || (i == 1 && !in->child_[0])), "structure: separator equals lower bound");
                visit(c, n, false, clo, first && i == 0, chi, chh, pre, layer, in->height_, leaves, depth + 1);
            }
        }
    }
    void layer_walk(node* root, const std::string& pre, int layer) {
        ++st.layers;
        std::vector<leaf*> leaves;
        visit(root, nullptr, true, 0, true, 0, false, pre, layer, 1u << 30, leaves, 0);
        leaf* prev = nullptr;
        for (size_t i = 0; i < leaves.size(); ++i) {
            PBT_CHECK(leaves[i]->prev_ == prev, "structure: left sibling link wrong (leaf %zu of %zu, prefix %s)", i, leaves.size(), pbt::hexs(pre).c_str());
            leaf* nx = i + 1 < leaves.size() ? leaves[i + 1] : nullptr;
            PBT_CHECK(leaves[i]->next_.ptr == nx, "structure: right sibling link wrong or left marked (leaf %zu of %zu, prefix %s)", i, leaves.size(), pbt::hexs(pre).c_str());
            if (nx) {
                perm_t perm = leaves[i]->permutation();
                if (perm.size())
                    PBT_CHECK(leaves[i]->ikey0_[perm[perm.size() - 1]] < nx->ikey_bound(), "structure: leaf holds keys at or above its right sibling's bound");
                if (i)
                    PBT_CHECK(leaves[i]->ikey_bound() < nx->ikey_bound(), "structure: leaf bounds out of order");
            }
            prev = leaves[i];
        }
        if (layer > 0 && leaves.size() == 1 && leaves[0]->size() == 0) {
            ++st.emptylayers;
            PBT_CHECK(!drained, "structure: emptied layer %s was never collected", pbt::hexs(pre).c_str());
        }
    }
    // returns the keys in tree order
    void run(Masstree::basic_table<P>& t, bool drained_) {
        drained = drained_;
        layer_walk(true_root(t.root()), "", 0);
        for (size_t i = 1; i < found.size(); ++i)
            PBT_CHECK(found[i - 1].first < found[i].first, "structure: keys %s and %s out of order across nodes",
                      pbt::hexs(found[i - 1].first).c_str(), pbt::hexs(found[i].first).c_str());
    }
};

template <typename P>
WalkStats walk_check(Masstree::basic_table<P>& t, const Model& m, bool drained, bool aborted = false) {
    TreeWalk<P> w;
    w.aborted = aborted;
    w.run(t, drained);
    PBT_CHECK(w.found.size() == m.size(), "structure: tree holds %zu keys, model %zu", w.found.size(), m.size());
    size_t i = 0;
    for (auto& kv : m) {
        PBT_CHECK(w.found[i].first == kv.first, "structure: stored key %s where %s expected", pbt::hexs(w.found[i].first).c_str(), pbt::hexs(kv.first).c_str());
        PBT_CHECK(w.found[i].second == kv.second, "structure: value of %s is %lu, expected %lu", pbt::hexs(kv.first).c_str(), w.found[i].second, kv.second);
        ++i;
    }
    return w.st;
}
#endif
