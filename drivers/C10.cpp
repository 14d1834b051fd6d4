// C10: one instruction of every kind on random slices, compared with a written-out oracle.
#include "route.hpp"
using namespace lsqecc;
using rt::at;
static Boundary S_{BoundaryType::Smooth, false}, R_{BoundaryType::Rough, false};
static DensePatch basic(PatchId id, PatchActivity a)
{
    DensePatch p{}; p.type = PatchType::Qubit; p.activity = a; p.id = id;
    p.boundaries.top = p.boundaries.bottom = S_; p.boundaries.left = p.boundaries.right = R_;
    return p;
}
static DenseSlice unlabelled(DenseSlice s) { for (auto& row : s.cells) for (auto& c : row) if (c) c->label.reset(); return s; }
static CellBoundaries turn(const CellBoundaries& b) { CellBoundaries r = b; r.right = b.top; r.bottom = b.right; r.left = b.bottom; r.top = b.left; return r; }
static PauliOperator pauli() { return static_cast<PauliOperator>(drv::rnd(0, 3)); }
int main()
{
    drv::init("random slices of 1x1..4x4 cells with unique ids, one instruction of every kind but the Bell operations, scripted routes; the slice, the pools, the follow-ups and the refusal are compared with an oracle");
    drv::Timer T;
    const double lim = drv::budget(25, 200);
    const int n = drv::thorough() ? 600000 : 90000;
    rt::OpIds ids;
    for (int k = 0; k < n && T.s() < lim; k++) {
        sl::TestLayout lay(drv::rnd(1, 4), drv::rnd(1, 4));
        std::vector<Cell> where;
        DenseSlice s = rt::uniq_slice(lay, drv::rnd(1, 4) * 20, &where);
        auto cell = [&]() { return Cell{drv::rnd(0, lay.rows - 1), drv::rnd(0, lay.cols - 1)}; };
        for (int i = drv::rnd(0, 4); i > 0; i--) { Cell c = cell(); if (std::find(lay.anc.begin(), lay.anc.end(), c) == lay.anc.end()) lay.anc.push_back(c); }
        for (int i = drv::rnd(0, 3); i > 0; i--) { Cell c = cell(); if (std::find(lay.ystates.begin(), lay.ystates.end(), c) == lay.ystates.end()) lay.ystates.push_back(c); }
        for (int i = drv::rnd(0, 2); i > 0; i--) lay.times.push_back(drv::rnd(1, 5));
        s.predistilled_ystates_available = drv::rnd(0, 2);
        s.magic_states.clear();
        for (int r = 0; r < lay.rows; r++) for (int c = 0; c < lay.cols; c++) if (auto& p = s.cells[r][c]; p && !p->id && drv::rnd(0, 2)) { p->type = PatchType::PreparedState; s.magic_states.insert(Cell{r, c}); }
        auto who = [&]() -> PatchId { if (where.empty() || drv::rnd(0, 9) == 0) return 77; return *at(s, where[drv::rnd(0, (int)where.size() - 1)])->id; };
        auto find = [&](PatchId i) -> std::optional<Cell> { for (auto c : where) if (at(s, c)->id == i) return c; return std::nullopt; };
        auto idle = [&](PatchId i) { auto c = find(i); return c && !rt::act(*at(s, *c)); };
        bool local = drv::coin(), twists = drv::coin(), gen = drv::coin(), refuse = false, check_slice = true;
        rt::FakeRouter router;
        DenseSlice w = s;
        std::vector<LSInstruction> follow;
        std::optional<LSInstruction> in;
        std::vector<DenseSlice> alts;               // when several outcomes are right
        std::ostringstream t; std::string kind;
        const int which = drv::rnd(0, 9);
        std::optional<RoutingRegion> used;
        bool merges = false; Cell ma{}, mb{};
        switch (which) {
        case 0: { PatchId q = who(); in = LSInstruction{SinglePatchMeasurement{q, drv::coin() ? PauliOperator::X : PauliOperator::Z, drv::coin()}}; kind = "measure"; auto c = find(q); refuse = !c; if (c) at(w, *c)->activity = PatchActivity::Measurement; break; }
        case 1: case 2: {
            PatchId q = who(); auto op = static_cast<SingleQubitOp::Operator>(drv::rnd(1, 5)); if (which == 2 && drv::coin()) op = SingleQubitOp::Operator::S;
            in = LSInstruction{SingleQubitOp{q, op}}; kind = "gate"; refuse = !idle(q); auto c = find(q);
            if (op == SingleQubitOp::Operator::S) {
                kind = "S"; if (c) router.answer = rt::path(s, lay, *c, *c); if (router.answer && router.answer->cells.empty()) router.answer.reset();
                if (!router.answer) refuse = true;
                if (drv::rnd(0, 19) == 0) { router.edpc = true; refuse = true; }
                if (!refuse) { merges = true; ma = mb = *c; follow.push_back(LSInstruction{SingleQubitOp{q, SingleQubitOp::Operator::Z}}); }
            } else if (!refuse && op == SingleQubitOp::Operator::H) { at(w, *c)->activity = PatchActivity::Unitary; at(w, *c)->boundaries = turn(at(w, *c)->boundaries); }
            break; }
        case 3: case 4: {
            PatchId a = who(), b = who(); if (a == b) continue;
            PauliOperator x = static_cast<PauliOperator>(drv::coin() ? (int)PauliOperator::X : (int)PauliOperator::Z), y = static_cast<PauliOperator>(drv::coin() ? (int)PauliOperator::X : (int)PauliOperator::Z);
            in = LSInstruction{MultiPatchMeasurement{.observable = {{a, x}, {b, y}}, .is_negative = drv::coin()}}; refuse = !idle(a) || !idle(b); auto ca = find(a), cb = find(b);
            if (local) {
                kind = "joint-local";
                if (ca && cb && std::abs(ca->row - cb->row) + std::abs(ca->col - cb->col) == 1) {
                    auto clash = [&](Cell me, Cell o, PauliOperator op) { auto b = rt::side(at(s, me)->boundaries, me, o).boundary_type; return (b == BoundaryType::Rough && op != PauliOperator::X) || (b == BoundaryType::Smooth && op != PauliOperator::Z); };
                    if (clash(*ca, *cb, x) || clash(*cb, *ca, y)) refuse = true;
                    else { rt::side(at(w, *ca)->boundaries, *ca, *cb).is_active = true; rt::side(at(w, *cb)->boundaries, *cb, *ca).is_active = true; }
                } else refuse = true;
            } else {
                kind = "joint"; if (ca && cb) router.answer = rt::path(s, lay, *ca, *cb);
                if (!router.answer) refuse = true;
                if (drv::rnd(0, 19) == 0) { router.edpc = true; refuse = true; }
                if (!refuse) { merges = true; ma = *ca; mb = *cb; }
            }
            break; }
        case 5: {
            PatchInit q{}; q.target = 90; q.state = PatchInit::InitializeableStates::Zero; kind = "init";
            if (drv::coin()) {
                PatchId p = who(); auto op = pauli(); q.place_next_to = PlaceNexTo{p, op}; auto c = find(p); refuse = true;
                kind = "init-next-to";
                if (c && (op == PauliOperator::X || op == PauliOperator::Z)) for (int d = 0; d < 4; d++) {
                    Cell o{c->row + rt::DR[d], c->col + rt::DC[d]}; if (!rt::in(lay, o) || at(s, o)) continue;
                    if (rt::side(at(w, *c)->boundaries, *c, o).boundary_type != (op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth)) continue;
                    refuse = false; DenseSlice v = s; at(v, o) = basic(90, PatchActivity::None); alts.push_back(v);
                }
            } else {
                refuse = true;
                for (Cell c : lay.anc) if (!at(s, c)) { at(w, c) = basic(90, PatchActivity::None); refuse = false; break; }
            }
            in = LSInstruction{q}; break; }
        case 6: { in = LSInstruction{PatchReset{who()}}; kind = "reset"; break; }
        case 7: {
            PatchId near = who(); in = LSInstruction{MagicStateRequest{91, near}}; kind = "magic"; refuse = lay.times.empty() || s.magic_states.empty() || !find(near);
            if (!refuse) for (Cell c : s.magic_states) { DenseSlice v = s; v.magic_states.erase(c); at(v, c)->id = 91; at(v, c)->type = PatchType::Qubit; at(v, c)->activity = PatchActivity::None; alts.push_back(v); }
            break; }
        case 8: {
            PatchId q = drv::coin() ? who() : 92, near = who(); in = LSInstruction{YStateRequest{q, near}}; auto c = find(q); kind = "Y";
            if (c) { kind = "Y-returned"; at(w, *c)->id.reset(); w.predistilled_ystates_available++; break; }
            if (!(local && twists) && s.predistilled_ystates_available) {
                kind = "Y-taken"; refuse = true;
                if (find(near)) for (Cell y : lay.ystates) if (at(s, y) && !at(s, y)->id && !rt::act(*at(s, y))) { refuse = false; DenseSlice v = s; at(v, y)->id = q; v.predistilled_ystates_available--; alts.push_back(v); }
            } else {
                kind = "Y-prepared"; refuse = true; auto nc = find(near);
                if (twists && nc) for (int d = 0; d < 4; d++) {
                    Cell o{nc->row + rt::DR[d], nc->col + rt::DC[d]}; if (!rt::in(lay, o) || at(s, o)) continue;
                    if (rt::side(at(w, *nc)->boundaries, *nc, o).boundary_type != BoundaryType::Smooth) continue;
                    refuse = false; DenseSlice v = s; at(v, o) = basic(q, PatchActivity::Unitary); alts.push_back(v);
                }
            }
            break; }
        default: {
            // a region held for a number of steps
            if (where.empty()) continue;
            kind = "busy"; Cell a = where[drv::rnd(0, (int)where.size() - 1)];
            auto R = rt::path(s, lay, a, a); if (!R || R->cells.empty()) continue;
            BusyRegion b; b.region = *R; b.steps_to_clear = drv::rnd(0, 3);
            for (auto& c : R->cells) { DensePatch p{}; p.type = PatchType::Routing; p.activity = PatchActivity::Rotation; p.boundaries = c; at(s, c.cell) = p; }
            DensePatch back = basic(95, PatchActivity::None); std::vector<SparsePatch> bs; Cell bc = R->cells[drv::rnd(0, (int)R->cells.size() - 1)].cell;
            if (drv::coin()) b.state_after_clearing = {back.to_sparse_patch(bc)};
            w = s;
            if (b.steps_to_clear <= 0) { for (auto& c : R->cells) at(w, c.cell).reset(); if (!b.state_after_clearing.empty()) at(w, bc) = back; }
            else { BusyRegion l = b; l.steps_to_clear--; follow.push_back(LSInstruction{l}); }
            in = LSInstruction{b}; break; }
        }
        t << sl::show(s) << " " << kind << ": " << *in << " " << rt::show(router.answer) << " local=" << local << " twists=" << twists << " edpc=" << router.edpc;
        drv::cas(kind + (refuse ? "-refused" : ""), t.str());
        DenseSlice r = s; bool err = false; std::vector<LSInstruction> got;
        LSInstruction arg = *in;
        try { auto res = try_apply_instruction_direct_followup(r, arg, local, twists, gen, lay, router); err = (bool)res.maybe_error; got = std::move(res.followup_instructions); } catch (const std::exception&) { err = true; }
        CHECK_("refusal:" + kind, err == refuse, t.str() << " refused=" << err);
        if (err) { CHECK_("unchanged:" + kind, sl::same(r, s) && got.empty(), t.str() << " refused but became " << sl::show(r)); continue; }
        if (refuse) continue;
        bool fs = got.size() == follow.size();
        for (size_t i = 0; fs && i < got.size(); i++) {
            std::ostringstream a, b; a << got[i]; b << follow[i]; if (a.str() != b.str()) fs = false;
            if (auto* x = std::get_if<BusyRegion>(&got[i].operation)) { auto* y = std::get_if<BusyRegion>(&follow[i].operation); fs = fs && y && x->steps_to_clear == y->steps_to_clear && x->region.cells.size() == y->region.cells.size() && x->state_after_clearing.size() == y->state_after_clearing.size(); }
        }
        CHECK_("followups:" + kind, fs, t.str() << " wrong follow-ups");
        if (merges) { ids.check(t.str(), gen, r, *router.answer); w = rt::merged(w, ma, mb, *router.answer, rt::op_of(r, *router.answer)); }
        if (alts.empty()) alts.push_back(w);
        bool fresh = which == 5 || kind == "Y-prepared";
        bool good = false; for (auto& v : alts) if (fresh ? sl::same(unlabelled(r), unlabelled(v)) : sl::same(r, v)) good = true;
        CHECK_("effect:" + kind, good, t.str() << " became " << sl::show(r) << " expected " << sl::show(alts[0]));
    }
    return drv::finish();
}
