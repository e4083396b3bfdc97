from ..harness import Check
from .. import gen, model
from .common import outcome, compare


class CHECK(Check):
    id = "C02"
    quick = 16000
    thorough = 160000
    rule = ("random trees of elements, text, interpolations and nested control structures, "
            "written in random layouts; the rendered text must be that of an independent "
            "interpreter of the tree. Non-trivial: at least two control structures and an "
            "output of more than ten characters")
    floors = {"renders": 500}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()

    def case(self, rng, index, tier):
        x = gen.ExprGen(rng, tick=rng.random() < 0.4)
        g = gen.TemplateGen(rng, x, code=rng.random() < 0.2,
                            depth=rng.choice([2, 3, 4, 5]), budget=rng.choice([10, 25, 50]),
                            large=0.05)
        nodes = g.template()
        source = model.serialize(nodes, rng, plain=rng.random() < 0.2)
        return nodes, source, gen.make_context(rng), g.used

    def describe(self, case):
        return case[1] + "\n" + repr(case[2])

    def run(self, case, obs):
        nodes, source, ctx, used = case

        def with_tick():
            n = [0]

            def tick():
                n[0] += 1
                return n[0]

            return dict(ctx, tick=tick)

        expected = outcome(lambda: model.Reference(nodes, with_tick()).render())
        got = outcome(lambda: self.loader.load_string(source).render(with_tick()))
        compare(expected, got, source)
        obs.count("renders")
        obs.count("errors" if got[0] == "error" else "rendered_ok")
        for k, n in used.items():
            obs.count("used." + k, n)
        if got[0] == "ok":
            obs.count("output_chars", len(got[1]))
            if len(got[1]) > 10 and sum(used.get(k, 0) for k in model.ORDER) >= 2:
                obs.distinct(source)
                obs.sample(source)
