// The semi-supervised expectation step with recording inner steps.
#include "rec.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
using namespace rec;

struct Call { std::string who, what; int doc, model, ret; std::vector<int> em; };
static std::vector<Call> calls;
static int counter, rets;

template <typename Sc> struct Inner : em::EStepInterface<Sc> {
    std::string who; Rng *r;
    corpus::Document **doc; parameters::Parameters **model;
    void emit(Call &c) {
        int n = r->k(4);
        for (int i = 0; i < n; i++) {
            c.em.push_back(++counter);
            if (r->p(0.5)) this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<Sc> >((Sc)counter);
            else this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Sc> >((Sc)counter);
        }
    }
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d,
                                                       const std::shared_ptr<parameters::Parameters> p) override {
        Call c = {who, "doc", d.get() == *doc, p.get() == *model, ++rets, {}};
        emit(c);
        calls.push_back(c);
        auto v = std::make_shared<parameters::VariationalParameters<Sc> >();
        v->gamma = Eigen::Matrix<Sc, -1, 1>::Constant(1, (Sc)rets);
        return v;
    }
    void e_step() override { Call c = {who, "epoch", 0, 0, 0, {}}; emit(c); calls.push_back(c); }
};

template <typename Sc> static void run(Line &l) {
    Rng r(I(l, "seed"));
    counter = rets = 0;
    corpus::Document *cur = nullptr;
    parameters::Parameters *curm = nullptr;
    auto mk = [&](const char *who) {
        auto s = std::make_shared<Inner<Sc> >();
        s->who = who; s->r = &r; s->doc = &cur; s->model = &curm;
        return s;
    };
    auto sup = mk("sup"), uns = mk("uns");
    std::unique_ptr<em::SemiSupervisedEStep<Sc> > semi(new em::SemiSupervisedEStep<Sc>(sup, uns));
    std::vector<int> ev;
    int stale = 0, generation = 0;
    auto listen = [&](int g) {
        return std::make_shared<events::FunctionEventListener>([&, g](std::shared_ptr<events::Event> e) {
            if (g != generation) { stale++; return; }
            if (e->id() == "ExpectationProgressEvent")
                ev.push_back((int)std::static_pointer_cast<events::ExpectationProgressEvent<Sc> >(e)->likelihood());
            else if (e->id() == "MaximizationProgressEvent")
                ev.push_back((int)std::static_pointer_cast<events::MaximizationProgressEvent<Sc> >(e)->likelihood());
            else ev.push_back(-1);
        });
    };
    semi->get_event_dispatcher()->add_listener(listen(0));
    Arr ops;
    auto note = [&](const std::string &op, int y, int ret) {
        Arr cs;
        for (auto &c : calls) cs.add(Obj().t("who", c.who).t("what", c.what).i("doc", c.doc).i("model", c.model).i("ret", c.ret)
                                         .raw("em", ints(c.em)).done());
        ops.add(Obj().t("op", op).i("y", y).raw("calls", cs.done()).i("ret", ret).raw("ev", ints(ev)).i("stale", stale).done());
        calls.clear(); ev.clear(); stale = 0;
    };
    int n = I(l, "n", 12);
    std::vector<std::shared_ptr<events::EventDispatcherInterface> > keep;
    for (int i = 0; i < n; i++) {
        int what = r.k(10);
        if (what == 0) { semi->e_step(); note("epoch", 0, 0); }
        else if (what == 1) {
            // as LDA does: the step is given another dispatcher
            keep.push_back(semi->get_event_dispatcher());
            if (r.p(0.5)) semi->set_event_dispatcher(std::make_shared<events::EventDispatcher>());
            else semi->set_event_dispatcher(std::make_shared<events::SameThreadEventDispatcher>());
            semi->get_event_dispatcher()->add_listener(listen(++generation));
        } else {
            int y = r.p(0.5) ? r.k(4) : -1 - r.k(3);
            if (r.p(0.05)) y = r.p(0.5) ? -2147483647 - 1 : 2147483647;
            auto d = std::make_shared<corpus::ClassificationDecorator>(
                std::make_shared<corpus::EigenDocument>(Eigen::VectorXi::Ones(3)), y);
            auto m = std::make_shared<parameters::SupervisedModelParameters<Sc> >();
            cur = d.get(); curm = m.get();
            auto v = std::static_pointer_cast<parameters::VariationalParameters<Sc> >(semi->doc_e_step(d, m));
            note("doc", y, (int)v->gamma(0));
        }
    }
    semi.reset();
    sup->e_step();
    uns->e_step();
    calls.clear();
    note("after", 0, 0);
    std::cout << Obj().t("id", S(l, "id")).raw("ops", ops.done()).done() << "\n";
}
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        if (S(l, "sc", "d") == "f") run<float>(l); else run<double>(l);
    }
}
