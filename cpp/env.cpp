// M14 save and reload, M16 signals, M18 annealing messages.
#include "envkit.h"
PROP(M14, "a run with measurements saved at an order other than the initial one or with a worm, reloaded, and continued")
{
    Run r;
    Cfg c = env_cfg(s, true);
    build(s, r, c);
    auto& e = *r.env;
    std::ostringstream log;
    log << c.str() << ":";
    bool measured = false;
    int n = s.range(0, 8);
    for (int i = 0; i < n; i++) {
        int x = (int)s.below(12);
        if (x == 0) { // factors changed by reweighting
            e.Para.OrderReWeight[s.below(c.order + 1)] = s.real(0.05, 4);
            e.Para.WormSpaceReweight = s.real(0.05, 4);
            e.Para.PolarReweight = s.real(0.05, 4);
            e.Markov.Reset(e.Para, e.Diag, e.Weight);
            log << " reweight";
        }
        else if (x == 1 && c.zeros == 0 && e.Diag.HasGammaGW == 0) { // annealed
            Cfg c2 = c;
            c2.tseed = s.below(1000) + 7;
            static const double b[] = {1.0, 0.5, 0.25, 2.0, 3.0, 0.7};
            c2.beta = b[s.below(6)];
            Ref ref;
            ref.build(c2);
            set_basis(c2.beta);
            write_weight(ref, r.f.weight);
            write_message(r.f.message, e.Para.Version + 1 + (int)s.below(3), c2.beta, s.real(0.5, 3));
            if (!e.ListenToMessage()) CHECK(false, "anneal", "a valid message was refused");
            c = r.c = c2;
            r.bind();
            log << " anneal";
        }
        else {
            Act a = gen_act(s);
            act(r, a);
            if (a.kind == 1) measured = true;
            log << " " << (a.kind == 0 ? "hop" : a.kind == 1 ? "measure" : a.kind == 2 ? "sample" : "adjust") << a.n;
        }
    }
    if (s.below(8) == 0) { // prefer the state without any line
        for (int i = 0; i < 300 && e.Diag.Order != 0; i++) e.Markov.Hop(1);
    }
    else if (s.below(4) == 0)
        for (int i = 0; i < 100 && !e.Diag.Worm.Exist; i++) e.Markov.Hop(1);
    if (!savable(r, s)) throw pbt::Discard();
    s.tag("order " + ToString(e.Diag.Order));
    s.tag(e.Diag.Worm.Exist ? "worm" : "no worm");
    e.Save();
    log << " save at order " << e.Diag.Order << (e.Diag.Worm.Exist ? " with worm" : "");
    Dictionary before = run_state(e);
    View v0 = view(*r.w);
    // go on, remembering everything
    std::vector<Act> acts;
    std::vector<View> trace;
    int m = s.range(1, 6);
    for (int i = 0; i < m; i++) {
        Act a = gen_act(s);
        acts.push_back(a);
        if (a.kind == 0) {
            for (int k = 0; k < a.n; k++) { e.Markov.Hop(1); trace.push_back(view(*r.w)); }
        }
        else { act(r, a); trace.push_back(view(*r.w)); }
    }
    Dictionary after = run_state(e);
    std::string pf = ToString(r.f.pid) + "_MC_para", sf = ToString(r.f.pid) + "_MC_statis";
    Dictionary para1, stat1;
    para1.Load(pf);
    stat1.BigLoad(sf);
    // another run in between, as a fresh process would not know the old one
    Cfg other;
    other.Lx = 3; other.Ly = 2; other.T = 3; other.order = 1; other.beta = 1.5;
    other.orderRe = {1, 1}; other.timeRatio = {1, 1};
    { World clobber(other); clobber.mk.Hop(5); }
    set_basis(c.beta);
    Run q;
    q.f = r.f;
    q.c = c;
    q.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
    q.env->Load();
    q.bind();
    std::string d = dict_diff(before, run_state(*q.env));
    // weights of the configuration are re-evaluated, everything else is exported as it was
    CHECK(d.empty(), "reload", "state after loading differs from the saved one at " << d << " (" << log.str() << ")");
    d = v0.diff(view(*q.w));
    CHECK(d.empty(), "reload_config", "configuration after loading differs: " << d << " (" << log.str() << ")");
    CHECK(q.env->Diag.CheckDiagram(), "reload_check", "the loaded configuration does not pass the self-check (" << log.str() << ")");
    int what = (int)s.below(3);
    if (what == 0) { // loading twice
        Run q2;
        q2.f = r.f; q2.c = c;
        q2.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
        q2.env->Load();
        d = dict_diff(run_state(*q.env), run_state(*q2.env));
        CHECK(d.empty(), "load_twice", "loading the same files twice gives different states: " << d);
    }
    else if (what == 1) { // saving what was loaded
        q.env->Save();
        Dictionary para2, stat2;
        para2.Load(pf);
        stat2.BigLoad(sf);
        d = dict_diff(para1, para2);
        CHECK(d.empty(), "resave_para", "saving a loaded run changes the parameter file: " << d);
        d = dict_diff(stat1, stat2);
        CHECK(d.empty(), "resave_statis", "saving a loaded run changes the data file: " << d);
        q.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
        q.env->Load();
        q.bind();
    }
    if (what == 2 && e.Para.Version == 0 && s.flip(1, 2)) { // a stop while the parameters were written: they are those of the description again
        q.env.reset();
        std::ifstream in(pf + ".txt", std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        in.close();
        if (s.flip()) unlink((pf + ".txt").c_str());
        else { std::ofstream o(pf + ".txt", std::ios::binary); o << text.substr(0, s.below(text.size())); }
        EnvMonteCarlo lost{para::Job(r.f.input)};
        CHECK(lost.Load(), "lost", "a run without its parameter file does not continue (" << log.str() << ")");
        Dictionary got = run_state(lost);
        CHECK(lost.Diag.CheckDiagram(), "lost_check", "the new configuration does not pass the self-check (" << log.str() << ")");
        EnvMonteCarlo fresh{para::Job(r.f.input)};
        fresh.BuildNew();
        Dictionary anew;
        std::string why;
        try { anew.Load(pf); why = dict_diff(fresh.Diag.ToDict(), anew.Get<Dictionary>("Config")); }
        catch (std::exception& x) { why = x.what(); }
        CHECK(why.empty(), "lost_anew", "a new run does not leave its own description in the parameter file: " << why << " (" << log.str() << ")");
        Dictionary want = run_state(fresh);
        want["Statis"] = before.Get<Dictionary>("Statis");
        want["Monitor"] = before.Get<Dictionary>("Monitor");
        d = dict_diff(want, got);
        CHECK(d.empty(), "lost_state", "without the parameter file the run is not the one of the description with the saved statistics: " << d << " (" << log.str() << ")");
        s.tag("parameter file lost");
        if (measured) s.nontrivial(log.str() + ", parameter file lost");
        clean(r.f);
        return;
    }
    size_t t = 0;
    for (auto& a : acts) {
        for (int k = 0; k < (a.kind == 0 ? a.n : 1); k++) {
            if (a.kind == 0) q.env->Markov.Hop(1);
            else act(q, a);
            d = trace[t++].diff(view(*q.w));
            CHECK(d.empty(), "continue", "step " << t << " after reloading differs from the uninterrupted run: " << d << " (" << log.str() << ")");
        }
    }
    d = near_diff(after, run_state(*q.env));
    CHECK(d.empty(), "continue_state", "the continued run ends differently from the uninterrupted one at " << d << " (" << log.str() << ")");
    if (measured && (v0.d[2] != 1 || v0.d[6])) s.nontrivial(log.str() + ", " + ToString((int)trace.size()) + " steps compared");
    clean(r.f);
}
// ---------------------------------------------------------------- M18
static std::vector<int> tops(const View& v) { std::vector<int> r; for (size_t i = 2; i < v.d.size(); i++) r.push_back((int)v.d[i]); return r; }
PROP(M18, "a history with at least one message applied and one refused, or applied to a configuration with a worm, an order other than one or vertex functions")
{
    Run r;
    Cfg c = env_cfg(s, false);
    build(s, r, c);
    auto& e = *r.env;
    std::ostringstream log;
    log << c.str() << ":";
    int version = 0, applied = 0, refused = 0;
    bool special = false;
    int n = s.range(1, 5);
    unlink((r.f.message + ".txt").c_str());
    for (int i = 0; i < n; i++) {
        int k = s.range(0, 4);
        for (int j = 0; j < k; j++) act(r, gen_act(s));
        if (s.below(6) == 0)
            for (int j = 0; j < 200 && e.Diag.Order != 0; j++) e.Markov.Hop(1);
        else if (s.below(4) == 0)
            for (int j = 0; j < 100 && !e.Diag.Worm.Exist; j++) e.Markov.Hop(1);
        Cfg c2 = c;
        c2.tseed = s.below(1u << 16) + 3;
        static const double bs[] = {1.0, 0.5, 0.25, 2.0, 3.0, 0.7, 5.3};
        c2.beta = bs[s.below(7)];
        double sq = s.flip(1, 4) ? 1.0 : s.real(0.2, 8);
        Ref ref;
        ref.build(c2);
        std::string mf = r.f.message + ".txt", wf = r.f.weight + ".hkl";
        int kind = (int)s.below(10);
        int ver = kind == 1 ? version - (int)s.below(3) : version + 1 + (int)s.below(s.flip(1, 4) ? 1000 : 2);
        write_message(r.f.message, ver, c2.beta, sq);
        write_weight(ref, r.f.weight);
        auto cut = [&](const std::string& file) {
            std::ifstream in(file, std::ios::binary);
            std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            in.close();
            std::ofstream o(file, std::ios::binary);
            o << t.substr(0, s.below(t.size()));
        };
        bool may_raise = false;
        switch (kind) {
        case 2: unlink(mf.c_str()); break;
        case 3: cut(mf); break;
        case 4: { // a message without one of its entries
            static const char* ms[] = {"{'Beta': 1.0, 'Version': 100000}", "{'Version': 100000, 'SqueezeFactor': 1.0}", "{'Beta': 1.0, 'SqueezeFactor': 1.0}", "{'Beta': 'x', 'Version': 100000, 'SqueezeFactor': 1.0}", "{'Beta': 1.0, 'Version': None, 'SqueezeFactor': 1.0}", "[1, 2]", "garbage((", "7"};
            write_text(mf, ms[s.below(8)]);
            may_raise = true;
            break;
        }
        case 5: unlink(wf.c_str()); break;
        case 6: cut(wf); break;
        default: break;
        }
        bool want = (kind == 0 || kind >= 7) && e.Diag.HasGammaGW == 0;
        if (want) set_basis(c2.beta);
        Dictionary st0 = run_state(e);
        Totals t0 = totals(*r.w);
        View v0 = view(*r.w);
        LoopRef lr = loop_ref(*r.w);
        bool got = false, raised = false;
        log << " message kind " << kind << " version " << ver << " beta " << c2.beta << " squeeze " << sq << " at order " << e.Diag.Order << (e.Diag.Worm.Exist ? " worm" : "") << (e.Diag.HasGammaGW ? " vertex" : "");
        try { got = e.ListenToMessage(); }
        catch (std::exception& x) {
            raised = true;
            CHECK(may_raise, "raised", "the run ends at a message: " << x.what() << " after" << log.str());
        }
        if (!want) {
            CHECK(!got, "applied", "a message that must be refused was applied after" << log.str());
            std::string d = dict_diff(st0, run_state(e));
            CHECK(d.empty(), "refused_state", "a refused message changed " << d << " after" << log.str());
            d = v0.diff(view(*r.w));
            CHECK(d.empty(), "refused_config", "a refused message changed the configuration: " << d << " after" << log.str());
            refused++;
            s.tag(raised ? "refused by an error" : e.Diag.HasGammaGW ? "refused with external vertex" : kind == 1 ? "refused old version" : "refused unreadable");
            // leave a readable weight file behind
            continue;
        }
        CHECK(got, "refused", "a valid message was refused after" << log.str());
        applied++;
        s.tag("applied");
        if (v0.d[2] != 1 || v0.d[6] || c.gamma3) special = true;
        CHECK(e.Para.Version == ver, "version", "version is " << e.Para.Version << " instead of " << ver << " after" << log.str());
        CHECK(e.Para.Beta == c2.beta && std::fabs(e.Para.T * c2.beta - 1) < 1e-12, "beta", "Beta " << e.Para.Beta << " T " << e.Para.T << " instead of " << c2.beta << " after" << log.str());
        version = ver;
        double oldbeta = c.beta;
        c = r.c = c2;
        r.bind();
        View v1 = view(*r.w);
        CHECK(tops(v0) == tops(v1), "config", "the configuration itself changed after" << log.str());
        {
            Arrays ar;
            Dictionary want_w;
            Dictionary full = weight_dict(r.w->ref, ar);
            want_w["G"] = full.Get<Dictionary>("G");
            want_w["W"] = full.Get<Dictionary>("W");
            std::string d = dict_diff(frozen(want_w), frozen(e.Weight.ToDict(weight::GW)));
            CHECK(d.empty(), "tables", "tables after annealing differ from the file at " << d << " after" << log.str());
        }
        check_structure(*r.w);
        check_weights(*r.w, lr);
        if (e.Diag.Worm.Exist) {
            auto& o = e.Diag.Worm;
            double ww = weight::Worm::Weight(o.Ira->R, o.Masha->R, o.Ira->Tau, o.Masha->Tau);
            CHECK(std::fabs(o.Weight - ww) < 1e-12, "wormweight", "worm weight");
        }
        Totals t1 = totals(*r.w);
        for (auto& x : t0.value) {
            CHECK(near(x.second / sq, t1.value[x.first]), "value", x.first << " " << x.second << " squeezed by " << sq << " is " << t1.value[x.first] << " after" << log.str());
            CHECK(near(t0.norm[x.first] / sq, t1.norm[x.first]), "norm", x.first << " norm " << t0.norm[x.first] << " squeezed by " << sq << " is " << t1.norm[x.first] << " after" << log.str());
        }
        for (auto& x : t0.h) {
            Hist& a = x.second;
            Hist& b = t1.h[x.first];
            CHECK(near(a.norm / a.factor / sq, b.norm / b.factor), "hist_norm", x.first << " normalisation " << a.norm << "/" << a.factor << " became " << b.norm << "/" << b.factor << " with squeeze factor " << sq << " after" << log.str());
            double f = std::pow(oldbeta / c.beta, x.first[0] == 'G' ? 3 : 2);
            CHECK(near(a.factor * f, b.factor), "hist_factor", x.first << " factor " << a.factor << " became " << b.factor << " from Beta " << oldbeta << " to " << c.beta << " after" << log.str());
            for (size_t j = 0; j < a.a.size(); j++) CHECK(near(a.a[j] / sq, b.a[j]), "hist", x.first << " entry " << j << " " << a.a[j] << " squeezed by " << sq << " is " << b.a[j] << " after" << log.str());
        }
        // the same message again is not newer
        if (s.flip(1, 3)) {
            Dictionary s1 = run_state(e);
            CHECK(!e.ListenToMessage(), "twice", "the same message was applied twice after" << log.str());
            std::string d = dict_diff(s1, run_state(e));
            CHECK(d.empty(), "refused_state", "a message seen before changed " << d << " after" << log.str());
            refused++;
        }
        // the run goes on consistently
        int m = s.range(0, 25);
        for (int j = 0; j < m; j++) {
            Step stp = gen_step(s, *r.w);
            do_step(*r.w, stp);
            check_structure(*r.w);
            check_weights(*r.w, lr);
            if (s.flip(1, 4)) e.MarkovMonitor.Measure();
        }
    }
    if (applied && (refused || special)) s.nontrivial(log.str());
    clean(r.f);
}
// ---------------------------------------------------------------- M16
static void work(int kind, uint64_t seed)
{
    Rand r(seed);
    switch (kind) {
    case 0: { // heap
        std::vector<std::string> v;
        for (int i = 0; i < 40; i++) v.push_back(std::string(10 + r.next() % 400, 'x'));
        break;
    }
    case 1: { volatile double x = 1; for (int i = 0; i < 300; i++) x = x * 1.0001; break; }
    default: LOG_INFO("working " << r.next());
    }
}
static void signals_scripted(Src& s)
{
    // script: c construct, x destroy, d delay, r resume, i raise SIGINT, t raise SIGTERM, w work
    std::string script;
    bool have = false, delay = false;
    std::set<int> pending;
    int n = s.range(1, 24);
    std::string want; // steps that must be reached
    int ends = 0; // 0 runs to the end, else allowed signal numbers
    std::set<int> by;
    bool killed = false;
    int sections = 0, deferred = 0;
    for (int i = 0; i < n && !ends; i++) {
        char op;
        int x = (int)s.below(16);
        if (!have && x < 8) op = 'c';
        else if (x < 6) op = delay ? 'r' : 'd';
        else if (x < 9) op = s.flip() ? 'i' : 't';
        else if (x < 13) op = 'w';
        else if (x == 13) op = 'd';
        else if (x == 14) op = 'r';
        else op = 'x';
        if ((op == 'd' || op == 'r' || op == 'x') && !have) op = 'w';
        if (op == 'x' && delay) op = 'w';
        if ((op == 'i' || op == 't') && !delay && s.below(3)) op = 'w'; // mostly deferred ones
        script += op;
        want += op;
        switch (op) {
        case 'c': have = true; delay = false; pending.clear(); break;
        case 'x': have = false; break;
        case 'd': delay = true; sections++; break;
        case 'r':
            if (delay && !pending.empty()) { ends = 1; by = pending; }
            delay = false;
            break;
        case 'i': case 't': {
            int sig = op == 'i' ? SIGINT : SIGTERM;
            if (!have) { ends = 1; by = {sig}; killed = true; }
            else if (!delay) { ends = 1; by = {sig}; }
            else { pending.insert(sig); deferred++; }
        }
        }
    }
    int wk = (int)s.below(3);
    uint64_t seed = s.below(1000);
    Proc p = spawn([&] {
        std::unique_ptr<InterruptHandler> h;
        for (char op : script) {
            put(op);
            bool d = h && h->IsDelaying();
            switch (op) {
            case 'c': h.reset(); h.reset(new InterruptHandler); break;
            case 'x': h.reset(); break;
            case 'd': h->Delay(); if (!h->IsDelaying()) put('?'); break;
            case 'r': h->Resume(); if (h->IsDelaying()) put('?'); break;
            case 'i': raise(SIGINT); break;
            case 't': raise(SIGTERM); break;
            default: work(wk, seed);
            }
            if ((op == 'i' || op == 't' || op == 'w') && h && h->IsDelaying() != d) put('?');
        }
    });
    Result r = collect(p, 20);
    if (deferred && sections) s.nontrivial("script " + script);
    s.tag(ends ? killed ? "default action" : "ended by request" : "ran to the end");
    CHECK(!r.hang, "hang", "the process does not end: script " << script << " printed " << r.out);
    CHECK(r.out.find('?') == std::string::npos, "delaying", "IsDelaying() is wrong: script " << script << " printed " << r.out);
    std::string out = r.out;
    if (!ends) {
        CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && out == want + "E", "effect", "script " << script << " without an open request ended with " << show_status(r.status) << ", printed " << out);
    }
    else if (killed) {
        CHECK(WIFSIGNALED(r.status) && by.count(WTERMSIG(r.status)) && out == want, "restored", "script " << script << " after the handler was removed ended with " << show_status(r.status) << ", printed " << out);
    }
    else {
        CHECK(WIFEXITED(r.status) && by.count(WEXITSTATUS(r.status)), "ending", "script " << script << " ended with " << show_status(r.status) << ", printed " << out);
        CHECK(out == want + "X" || out == want, "once", "script " << script << " printed " << out << " instead of " << want + "X");
    }
}
// requests from outside, at any instruction
static void signals_outside(Src& s)
{
    int sig = s.flip() ? SIGINT : SIGTERM;
    int inner = s.range(1, 40), outer = s.range(0, 20), wk = (int)s.below(3), wo = (int)s.below(3);
    uint64_t delay_us = s.below(4000), seed = s.below(1000);
    bool twice = s.flip(1, 4);
    Proc p = spawn([&] {
        InterruptHandler h;
        put('R');
        for (long i = 0; i < 1000000000; i++) {
            for (int k = 0; k < outer; k++) work(wo, seed + k);
            h.Delay();
            put('(');
            for (int k = 0; k < inner; k++) work(wk, seed + k);
            put(')');
            h.Resume();
        }
    });
    char b;
    ssize_t got = read(p.fd, &b, 1);
    usleep(delay_us);
    kill(p.pid, sig);
    if (twice) { usleep(20); kill(p.pid, sig); }
    Result r = collect(p, 20);
    CHECK(got == 1, "start", "no start");
    std::string out = r.out;
    s.nontrivial("signal " + ToString(sig) + " after " + ToString((long)delay_us) + " us, sections of " + ToString(inner));
    CHECK(!r.hang, "hang", "signal " << sig << " does not end the process");
    CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == sig, "ending", "signal " << sig << " ended the process with " << show_status(r.status));
    size_t e = std::min(out.size(), out.find('X'));
    CHECK(e + 1 >= out.size(), "once", "the process ended more than once or not through exit: ..." << out.substr(out.size() > 30 ? out.size() - 30 : 0));
    CHECK(e == 0 || out[e - 1] == ')', "section", "the process ended inside a section: ..." << out.substr(e > 30 ? e - 30 : 0));
    for (size_t i = 1; i < e; i++) CHECK(out[i] != out[i - 1], "section", "sections are out of order");
    s.tag("outside");
}
// saving a run in a section, under fire
static void signals_save(Src& s)
{
    Run r;
    Cfg c = env_cfg(s, true);
    build(s, r, c);
    auto& e = *r.env;
    e.Markov.Hop(20);
    if (!savable(r, s)) throw pbt::Discard();
    e.Save();
    int sig = s.flip() ? SIGINT : SIGTERM;
    uint64_t delay_us = s.below(30000);
    Proc p = spawn([&] {
        InterruptHandler h;
        put('R');
        for (long i = 0; i < 1000000000; i++) {
            e.Markov.Hop(3);
            e.MarkovMonitor.Measure();
            h.Delay();
            put('(');
            e.Save();
            put(')');
            h.Resume();
        }
    });
    char b;
    ssize_t got = read(p.fd, &b, 1);
    usleep(delay_us);
    kill(p.pid, sig);
    Result q = collect(p, 30);
    CHECK(got == 1, "start", "no start");
    s.nontrivial("saving " + c.str() + " with signal " + ToString(sig) + " after " + ToString((long)delay_us) + " us");
    s.tag("save");
    std::string out = q.out;
    CHECK(!q.hang, "hang", "signal " << sig << " does not end the process");
    CHECK(WIFEXITED(q.status) && WEXITSTATUS(q.status) == sig, "ending", "signal " << sig << " while saving ended the process with " << show_status(q.status) << " ..." << out.substr(out.size() > 20 ? out.size() - 20 : 0));
    size_t x = std::min(out.size(), out.find('X'));
    CHECK(x + 1 >= out.size() && (x == 0 || out[x - 1] == ')'), "section", "the process ended inside the section: ..." << out.substr(out.size() > 20 ? out.size() - 20 : 0));
    Run w;
    w.f = r.f; w.c = c;
    w.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
    w.env->Load();
    CHECK(w.env->Diag.CheckDiagram(), "save", "the saved run does not load");
    clean(r.f);
}
PROP(M16, "a script with a request inside a section, or a request from outside the process")
{
    setup();
    int k = (int)s.below(10);
    if (k < 7) signals_scripted(s);
    else if (k < 9) signals_outside(s);
    else signals_save(s);
}
int main(int argc, char** argv)
{
    py_init();
    return pbt::main_(argc, argv);
}
