"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "diffrax/_integrate.py"


def P(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, level_note=level_note, technique=technique, observe=observe)


PROPS = [
    P("L01", "Accepted steps tile the integration interval",
      "Whatever the step size controller proposes, the accepted steps of a solve start at the given start time, "
      "follow one another without gap or overlap (other than the jump of a declared discontinuity), always move "
      "towards the end time and never pass it. A proposal that reaches (or comes within rounding distance of) the "
      "end is shortened to the end exactly after an accepted step, and to half of what remains after a rejected one. "
      "A solve that reports success finished exactly at the requested end time.",
      ["schedules", "inputs"], "every sequence of accept/reject verdicts and proposed step sizes, every interval",
      "The tests use a few smooth problems whose controllers hardly ever overshoot and reject together; the claim "
      "quantifies over every sequence of controller verdicts.",
      [I], [("clipping to the end and the loop condition", I + ":_clip_to_end, loop")],
      "TLC checks the tiling invariant over every controller schedule of the bounded model; each behaviour is replayed "
      "into diffeqsolve through a scripted controller and method and the attempted intervals must agree exactly.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("L02", "Rejected steps leave no trace",
      "When a step is rejected, the next attempt starts from the same time, the same state, the same solver memory and "
      "the same discontinuity flag as the rejected attempt, and nothing of the rejected attempt appears in any output. "
      "When a step is accepted, the next attempt receives exactly the state, solver memory and discontinuity flag that "
      "the accepted step and the controller produced.",
      ["schedules", "histories"], "every sequence of accepted and rejected attempts, with and without discontinuities",
      "Rejections are rare in the test problems and a stale solver memory only changes the answer within tolerance.",
      [I], [("keep/not-keep of state, solver state and jump flag", I + ":body_fun_aux")],
      "As L01; the scripted method is sensitive (exact integers) to time, state, memory and flag of every attempt.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("L03", "Saved output is exactly what was requested",
      "Each saving request receives, in order of time along the solve, exactly one entry for the start (if asked), one "
      "per requested time, one per n-th accepted step (if asked), and one for the final state (if asked and not already "
      "present as a step), each holding the save function of the solution at that time; all unused entries are positive "
      "infinity. Requests in one solve do not influence each other, and this also holds when the start and end times "
      "coincide or when the solve stops early.",
      ["inputs", "schedules", "configurations"],
      "every combination of saving options, requested times (repeated, at either end, clustered) and step schedules",
      "The tests sample a few combinations on smooth problems, with loose tolerances; combinations interact "
      "(step counts, duplicates, truncation, degenerate intervals).",
      [I, "diffrax/_saveat.py"], [("buffers and save indices", I + ":save_ts, save_steps, _save_t1, unsave, _allocate_output")],
      "The model runs several saving requests at once over every schedule, TLC checks the buffers against a declarative "
      "definition, and replay compares every entry and the padding exactly.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("L04", "Dense output reproduces the accepted steps",
      "The dense solution of a solve covers exactly the times from the start to where the solve got to, is undefined "
      "(NaN) outside, and at every time inside equals the interpolation of the one accepted step containing that time, "
      "with value, increment and derivative mutually consistent; at a time where two steps meet the caller's choice of side "
      "decides. For a solve over an empty interval it returns the initial value at that time.",
      ["inputs", "schedules"], "every schedule of steps and every query time, including step ends and out-of-range times",
      "Tests query a few interior points within solver tolerance, where an off-by-one piece is invisible.",
      [I, "diffrax/_global_interpolation.py", "diffrax/_local_interpolation.py"],
      [("piece lookup", "diffrax/_global_interpolation.py:DenseInterpolation"), ("recording", I + ":body_fun_aux")],
      "As L01, querying the returned dense solution at and around every step end, both sides; for the library's own "
      "interpolants value/derivative/increment consistency is checked as well.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("L05", "Outcomes and statistics are reported truthfully",
      "The reported counts satisfy steps = accepted + rejected, never exceed the allowed maximum, and equal what was "
      "actually attempted. The reported outcome is success only if the end was reached, 'maximum steps' exactly when the "
      "budget ran out first, and otherwise the first failure of the solver (on an accepted step) or the controller, which "
      "nothing later may overwrite. With errors enabled a failed solve raises, and an event is never an error.",
      ["schedules", "fault_sequences"], "every sequence of verdicts and of solver/controller failures, coinciding or not",
      "Tests trigger one failure at a time on a given problem; coincidences (failure with event, last allowed step, "
      "failure on a rejected step) are not sampled.",
      [I, "diffrax/_solution.py"], [("result bookkeeping", I + ":body_fun_aux, cond_fun"), ("result table", "diffrax/_solution.py:update_result")],
      "As L01 with failures injected by the scripted method and controller at every point of the bounded model.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("E01", "Events stop the solve at the first step on which they trigger",
      "A solve with event conditions stops after the first accepted step at whose end some condition triggers (a boolean "
      "becoming true, a real value changing sign, or crossing in the requested direction) and not before, reports that an "
      "event occurred, and marks exactly one condition: the first triggered one in the given order. A boolean "
      "condition already true at the start stops the solve before any step; rejected attempts never trigger anything.",
      ["inputs", "schedules", "configurations"], "every structure of conditions, thresholds, directions and step schedules",
      "Tests use single conditions on smooth trajectories; ties, exact zeros, triggers at the start and after rejections are "
      "not sampled.",
      [I, "diffrax/_event.py"], [("event evaluation and masks", I + ":_outer_cond_fn")],
      "Event conditions of both kinds and all directions are part of the model; every behaviour is replayed exactly.",
      "TLA+ model (Integrate.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
    P("E02", "Event localisation ends the solve at the crossing",
      "With a root finder, the final time lies within the last step and is where the triggered real-valued condition is "
      "zero along that step's interpolation (or the step's end, for a boolean condition); the final state is the solution "
      "there. Nothing saved lies after that time, everything saved up to it is unchanged, and the final state takes the "
      "place of a removed last step.",
      ["inputs", "schedules"], "every crossing position relative to requested times and steps",
      "Tests check the event time on a couple of examples; which saves survive depends on the order of crossing, requested "
      "times and steps.",
      [I], [("root find and truncation", I + ":_root_find, unsave, _save_t1")],
      "Exact rational crossing times in the model; replay agrees to the root finder's tolerance.",
      "TLA+ model (Integrate.tla) checked by TLC + replay of its behaviours into diffeqsolve"),
    P("D01", "Solving backwards in time mirrors solving forwards",
      "A solve from a later to an earlier time behaves exactly as the time-reflected problem solved forwards: same steps, "
      "decisions, saves, dense output, statistics and outcomes with every time negated; user functions (vector fields, controls, "
      "save functions, event conditions) always see the user's own time, and padding is positive infinity either way.",
      ["inputs", "configurations"], "every problem, controller, saving and event configuration",
      "Backward solves are tested on a few ODEs with default saving only.",
      [I, "diffrax/_term.py"], [("direction normalisation", I + ":diffeqsolve"), ("wrapped terms", "diffrax/_term.py:WrapTerm")],
      "All loop and event behaviours are replayed backwards in time; library solvers and controllers are compared with the "
      "reflected problem.",
      "TLA+ model (Integrate.tla) checked by TLC + replay in reversed time"),
    P("C01", "Stopping and resuming a solve is transparent",
      "Stopping a solve, at its end or because the step budget ran out, and resuming from the returned time, state, solver "
      "memory, controller memory and discontinuity flag continues exactly where it stopped: the two legs make the steps, "
      "hand over the state and give the answer of one uninterrupted solve making the same proposals. Resuming never steps "
      "backwards or makes a fixed step larger than asked.",
      ["histories", "schedules", "crash_points"], "every stopping point of every schedule, every split of the interval",
      "One resume test exists, for one solver and one split.",
      [I, "diffrax/_step_size_controller/constant.py"], [("passed-in states", I + ":diffeqsolve"), ("fixed grid", "diffrax/_step_size_controller/constant.py:ConstantStepSize")],
      "Two-leg model checked by TLC, replayed exactly; library solvers are compared split against unsplit.",
      "TLA+ model (Resume.tla) checked by TLC + exact replay of two-leg behaviours"),
    P("V01", "Batched solves are independent",
      "In a vectorised batch every element's result (times, values, statistics, outcome, event mask, dense output) is what that "
      "element would give on its own, regardless of what other elements do: finish earlier or later, reject, fail, or trigger "
      "events.",
      ["inputs", "schedules", "configurations"], "every mixture of behaviours in a batch",
      "Batched tests use near-identical elements; divergence between elements needs mixed behaviours.",
      [I, "diffrax/_solver/runge_kutta.py"], [("batch-wide shortcuts", I + ":unvmap_any uses")],
      "Batches mixing arbitrary behaviours of the model are replayed under jax.vmap; each lane must match the specification.",
      "TLA+ model (Integrate.tla) checked by TLC + batched replay of mixed behaviours"),
    P("O01", "Solvers have the order they claim",
      "One step of each ODE method (explicit, implicit, implicit-explicit, half-stepping) reproduces the Taylor expansion of the "
      "exact solution up to the order the method reports, for every vector field, autonomous or not, on the first and on "
      "later steps of any length; its error estimate is of exactly the reported order (it vanishes on all lower-order terms and "
      "not on that order); and its interpolation starts and ends at the step's values and has its documented accuracy between.",
      ["inputs", "configurations"], "every smooth vector field (through every rooted tree up to the order), time and step length",
      "Tests estimate convergence rates on a few ODEs; a wrong coefficient that only enters one elementary differential, the "
      "error estimate or the interpolation is invisible there.",
      ["diffrax/_solver/runge_kutta.py", "diffrax/_solver/base.py", "diffrax/_solver/tsit5.py", "diffrax/_solver/dopri8.py", "diffrax/_solver/kencarp4.py", "diffrax/_local_interpolation.py"],
      [("stage loop", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("coefficients", "diffrax/_solver/*.py")],
      "TLC builds and validates the complete catalogue of (bi-coloured) rooted trees; the polynomial system they define is stepped "
      "through every real solver, so every order condition, error weight and dense weight is checked exactly.",
      "TLA+ model (Trees.tla, Methods.tla) checked by TLC; its catalogue drives the real solvers",
      ["solver.step / solver.interpolation_cls"]),
    P("K01", "Fixed-step controllers make exactly the steps asked for",
      "With a constant step size the solve visits the multiples of the step from the start, forwards or backwards in time, with no "
      "step longer than asked for and the last one ending exactly at the end: a dividing step gives exactly T/dt steps even when "
      "dt is not exactly representable (no sliver at the end). With a prescribed list of times the steps are exactly between "
      "consecutive times, in either direction.",
      ["inputs", "configurations"], "every interval, step size, direction and precision",
      "Rounding makes the number of steps depend on the particular numbers; the tests try a few.",
      ["diffrax/_step_size_controller/constant.py", I],
      [("stepping", "diffrax/_step_size_controller/constant.py"), ("clipping", I + ":_clip_to_end")],
      "Steps recorded from real solves over a sweep of intervals, step sizes, directions and precisions are checked by TLC against "
      "the Grid.tla automaton.",
      "TLA+ specification (Grid.tla); recorded traces checked against it by TLC"),
    P("K02", "The adaptive controller keeps a step iff its error is within tolerance",
      "A step is kept exactly when the norm of its error estimate, each entry relative to atol + rtol * max(|start|, |end|) over the "
      "whole state tree (real or complex), is below one, or when the controller was already forced down to dtmin; an undefined or "
      "infinite estimate always rejects. The next attempt is the current step times the PID factor built from this error and those of the "
      "last two kept steps only, clipped to [factormin, safety] after a rejection and [1, factormax] after a kept step, then to dtmax and "
      "dtmin; falling below dtmin fails the solve unless force_dtmin. The automatic first step follows the Hairer-Norsett-Wanner rule.",
      ["histories", "inputs", "configurations"],
      "every history of error sizes (tiny, moderate, zero, infinite), every coefficient and limit configuration, and every shape of state",
      "A wrong memory, exponent or limit changes only which steps are taken, so every accuracy test still passes within tolerance.",
      ["diffrax/_step_size_controller/pid.py"],
      [("accept/reject and factor", "diffrax/_step_size_controller/pid.py:PIDController.adapt_step_size"),
       ("first step", "diffrax/_step_size_controller/pid.py:_select_initial_step")],
      "PID.tla is the controller on a logarithmic scale; TLC checks tolerance, memory, range and shrinking invariants over all error "
      "histories of the bounds; behaviours are replayed into PIDController with several presentations of the same scaled error.",
      "TLA+ model (PID.tla, InitStep.tla) checked by TLC + replay of its behaviours into PIDController",
      observe=["PIDController.init / adapt_step_size", "Solution.ts of adaptive solves"]),
    P("K03", "Requested step times are hit and discontinuities are stepped around",
      "Every requested step time inside the interval is the end of an accepted step exactly, and every declared discontinuity "
      "is stepped up to from just before and continued from just after, with the method told about it exactly once and only then, "
      "whatever the wrapped controller proposes or rejects, forwards and backwards in time; marked times outside the "
      "interval change nothing, and the wrapped controller is otherwise followed.",
      ["schedules", "inputs"], "every set of marked times and every schedule of the wrapped controller",
      "The bad cases need a rejection next to a marked time, several marked times in one step, or marked times at an end.",
      ["diffrax/_step_size_controller/clip.py"],
      [("clip search and jump handling", "diffrax/_step_size_controller/clip.py:ClipStepSizeController.adapt_step_size"),
       ("previous/next float", "diffrax/_misc.py / _step_size_controller/clip.py")],
      "TLC checks StepsHit, JumpsAvoided, JumpsTaken, NoFalseAlarm over all schedules on a model whose unit is one floating point step; "
      "behaviours are replayed at an offset where one float step is exactly 1.",
      "TLA+ model (Clip.tla) checked by TLC + exact replay into ClipStepSizeController"),
    P("K04", "Rejected step times are revisited when asked to",
      "With store_rejected_steps, every rejected step end is later the end of an accepted step (unless the solve ends first or the "
      "buffer overflows, which is reported as such), in order, together with requested and discontinuity times.",
      ["schedules", "histories"], "every nesting of rejections, with every buffer size",
      "Needs nested rejections; a stack bug only shifts step locations slightly.",
      ["diffrax/_step_size_controller/clip.py"],
      [("stack of rejected steps", "diffrax/_step_size_controller/clip.py:ClipStepSizeController")],
      "As K03 with the stack of rejected times (Revisited, StackOrdered).",
      "TLA+ model (Clip.tla) checked by TLC + exact replay into ClipStepSizeController"),
    P("N01", "SDE solvers have the strong order they claim, in their own calculus",
      "One step of each stochastic method, driven by any path of the noise (increment and space-time Levy areas), reproduces the "
      "stochastic Taylor expansion of the equation in the calculus (Ito or Stratonovich) the method declares, to its declared strong "
      "order for the declared kind of noise (additive, scalar/commutative, general): terms of lower weight exactly along the path, the "
      "next ones on average. Its error estimate vanishes on the terms of lower order.",
      ["inputs", "configurations"], "every driving path, step size, noise type and vector field, through every stochastic tree up to the order",
      "Order tests for SDEs are statistical, slow and excluded from the regular suite; a wrong coefficient on one term hides in Monte-Carlo noise.",
      ["diffrax/_solver/srk.py", "diffrax/_solver/milstein.py", "diffrax/_solver/euler_heun.py", "diffrax/_solver/sra1.py", "diffrax/_solver/shark.py",
       "diffrax/_solver/slowrk.py", "diffrax/_solver/spark.py", "diffrax/_solver/sea.py"],
      [("stochastic stages", "diffrax/_solver/srk.py:AbstractSRK.step"), ("Milstein", "diffrax/_solver/milstein.py")],
      "TLC generates the catalogue of stochastic trees and all lattice paths with their exact Levy areas; the tree system is stepped through "
      "every real solver along every path and compared weight by weight.",
      "TLA+ model (Sde.tla, Levy.tla) checked by TLC; its trees and paths drive the real solvers",
      ["solver.step driven by a prescribed path"]),
    P("N02", "A Brownian path is one function, whatever is asked of it",
      "For a given key, VirtualBrownianTree is one path: increments over adjacent intervals add up, values do not depend on the order, "
      "grouping, batching or direction of queries, both endpoints are included, the space-time Levy areas combine by the documented rule, and the "
      "shape and dtype are those asked for, for every PyTree shape and every kind of Levy area. UnsafeBrownianPath returns the same "
      "increment for the same interval. Different keys and different leaves are different paths.",
      ["inputs", "histories", "configurations"], "every set of queries on the tick grid of an interval, every shape and Levy area",
      "Tests of the tree are statistical and excluded from the regular suite; consistency between queries at different depths is not tested.",
      ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py", "diffrax/_misc.py"],
      [("tree descent", "diffrax/_brownian/tree.py:VirtualBrownianTree._evaluate_leaf"), ("increments", "diffrax/_brownian/tree.py:levy_diff")],
      "TLC checks Chen's relation and consistency over all query histories of the model; the histories are put to the real trees.",
      "TLA+ model (Brownian.tla, Levy.tla) checked by TLC + its query histories replayed into the real paths",
      ["VirtualBrownianTree.evaluate / UnsafeBrownianPath.evaluate"]),
    P("N03", "Brownian increments have the right joint distribution",
      "Increments and space-time(-time) Levy areas of every supported Brownian path are Gaussian with mean zero and exactly the covariances of "
      "Brownian motion, within one interval and jointly between any intervals of one path (disjoint, nested, overlapping), and independent "
      "across components, leaves and keys.",
      ["inputs", "configurations"], "every collection of intervals of a tick grid",
      "Marginal distributions are tested at a few points (and excluded from the regular suite); joint covariances between queries are not.",
      ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py"],
      [("bridge formulae", "diffrax/_brownian/tree.py:VirtualBrownianTree._brownian_arch"), ("direct samples", "diffrax/_brownian/path.py:UnsafeBrownianPath._evaluate_leaf")],
      "The exact covariance of every pair of queried quantities is computed by the model in rational arithmetic; the real paths are sampled with "
      "fixed keys and compared with bounds more than six standard errors wide.",
      "TLA+ model (Brownian.tla, Levy.tla) gives the exact covariances; recorded samples of the real paths are checked against them",
      ["VirtualBrownianTree.evaluate / UnsafeBrownianPath.evaluate"]),
    P("O02", "What a method remembers is never visible where it should not be",
      "A step of a method depends only on the time, state and (for methods documented to have memory) the memory of the last accepted step: "
      "the slope kept for reuse is never seen after a rejection, at a discontinuity, or in another regime of the vector field. Leapfrog "
      "reaches back exactly one accepted step, and reversible Heun carries exactly its companion state; half-stepping inherits this from the "
      "method it wraps.",
      ["histories", "configurations"], "every history of accepted and rejected attempts and discontinuities, for every method and kind of equation",
      "Needs a rejection or a discontinuity right before a reuse; the consequence is an error within tolerance.",
      ["diffrax/_solver/runge_kutta.py", "diffrax/_solver/base.py", "diffrax/_solver/leapfrog_midpoint.py", "diffrax/_solver/reversible_heun.py", "diffrax/_solver/srk.py"],
      [("first-same-as-last", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("half steps", "diffrax/_solver/base.py:HalfSolver.step")],
      "TLC checks OwnSlope, OneBack and Forget over all histories; each history is run through every real solver, comparing every attempt with a "
      "memoryless recomputation in the right regime.",
      "TLA+ model (Memory.tla) checked by TLC + replay of its histories into every solver",
      ["solver.init / solver.step"]),
    P("O03", "Implicit methods solve their equations or say so",
      "If a stage equation of an implicit step cannot be solved, the step is rejected when step sizes are adapted, leaving no trace, and otherwise the "
      "solve stops with that reason; a step reported as good has solved its stages to the requested tolerance, and linear stage equations, "
      "however stiff, are always solved, with decay reproduced as decay, so they never cause a rejection.",
      ["faults", "histories", "configurations"], "every pattern of unsolvable stages along a solve, every implicit method and root finder",
      "Nonlinear failures are rare on the test problems, and a wrong Jacobian or convergence test mostly costs extra steps.",
      ["diffrax/_solver/runge_kutta.py", "diffrax/_solver/implicit_euler.py", "diffrax/_root_finder/_verychord.py", "diffrax/_solver/base.py", I],
      [("stage solve and result", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"), ("convergence test", "diffrax/_root_finder/_verychord.py:VeryChord.terminate")],
      "TLC enumerates all patterns of solvable and unsolvable stages; each is realised as a vector field and solved by every real implicit method.",
      "TLA+ model (Stages.tla) checked by TLC + replay of its behaviours into the implicit solvers"),
    P("O04", "A method is what its Butcher tableau says",
      "A Runge-Kutta method made from any tableau (explicit, diagonally implicit, SDIRK, ESDIRK), by a user or the library, makes exactly the "
      "step its tableau defines, with exactly the error estimate it defines, for any vector field, for ODE and controlled terms, on the first and on "
      "following steps, whether or not the last stage is the solution or the first stage of the next step.",
      ["inputs", "configurations"], "every tableau with coefficients in a grid, up to four stages, and every vector field through every rooted tree",
      "Only the library's own tableaus are tested; shortcuts (last stage as solution, slope reuse, implicit stage values) depend on the structure of the tableau.",
      ["diffrax/_solver/runge_kutta.py"],
      [("tableau properties", "diffrax/_solver/runge_kutta.py:ButcherTableau"), ("stage loop", "diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step")],
      "The model assembles tableaus row by row and computes the weight of every tree; the real machinery must reproduce them.",
      "TLA+ model (Tableau.tla, Methods.tla) checked by TLC + its tableaus executed by AbstractRungeKutta",
      ["solver.step"]),
    P("I01", "Interpolations of data pass through the data and nothing else",
      "Interpolating observed data: every coefficient scheme (linear, rectilinear, backward Hermite) passes through every observation, "
      "fills missing ones (including leading and trailing ones, and with replacements at the start) as documented and never from the future when causal, "
      "and the interpolations evaluate, on the requested side of a knot and on increments and derivatives, the one piece that contains the time, for any "
      "times, channels, PyTrees.",
      ["inputs", "configurations"], "every pattern of missing data and every query position",
      "Tests use dense random data with a couple of missing patterns; combinations of leading, repeated and trailing gaps with the options are not tried.",
      ["diffrax/_global_interpolation.py", "diffrax/_misc.py"],
      [("filling", "diffrax/_global_interpolation.py:linear_interpolation, rectilinear_interpolation, backward_hermite_coefficients"),
       ("lookup", "diffrax/_global_interpolation.py:AbstractGlobalInterpolation._interpret_t")],
      "The model computes every coefficient and query exactly in rationals for all missing-data patterns; the real functions must agree.",
      "TLA+ model (Interp.tla, Rationals.tla) checked by TLC + replay of all its data patterns into the real interpolations",
      ["LinearInterpolation / CubicInterpolation evaluate and derivative"]),
    P("N04", "Underdamped Langevin methods have their claimed expansion at every friction",
      "The underdamped Langevin methods (ALIGN, ShOULD, QUICSORT) reproduce the stochastic Taylor expansion of the Langevin equation, in the time and "
      "Levy increments of the step, up to the weight they claim; their error estimate vanishes where it should; the Taylor expansion used for small "
      "friction and the closed form used otherwise agree, whatever the sign and size of friction times step and whatever mixture of frictions a state has; "
      "a free particle is moved exactly; and a solve is the composition of its steps, with or without jumps, forwards or backwards.",
      ["inputs", "configurations"], "every friction, step length, direction, noise increment and (polynomial) force",
      "Tests measure strong order on three examples with loose bounds (and are not among the stable ones here); a wrong coefficient of a high-weight "
      "term, or the wrong branch for one sign of the friction times step, hides in the noise.",
      ["diffrax/_solver/foster_langevin_srk.py", "diffrax/_solver/align.py", "diffrax/_solver/should.py", "diffrax/_solver/quicsort.py"],
      [("coefficients and branch choice", "diffrax/_solver/foster_langevin_srk.py:AbstractFosterLangevinSRK"), ("compute step", "diffrax/_solver/align.py:_compute_step")],
      "The model expands the equation and the closed-form free motion exactly; the real methods are probed on a fine circle of scales to recover their expansion.",
      "TLA+ model (Langevin.tla, Rationals.tla) checked by TLC + its expansions compared with the real Langevin methods",
      ["solver.step", "the Solution returned by diffeqsolve"]),
    P("M01", "Terms mean the same however they are presented, summed and differentiated",
      "A term is the product of a vector field and the increment of a control: the product of `vf` and `contr` equals `vf_prod`; increments over adjoining "
      "stretches add up; sums of terms in any grouping move the state by the sum of what the parts do; the adjoint term pairs the state with its covector "
      "exactly; a control turned into an ODE keeps its rate; and every presentation of the same term (arrays, PyTrees, Lineax operators, shaped controls) "
      "gives the same solve with every method.",
      ["inputs", "configurations"], "every (polynomial) vector field, control path, grouping, direction and presentation",
      "Tests check a few shapes and one fixed vector field; groupings, adjoints of sums and mixtures of presentations are not combined.",
      ["diffrax/_term.py"], [("terms", "diffrax/_term.py:ODETerm, ControlTerm, MultiTerm, AdjointTerm, WeaklyDiagonalControlTerm")],
      "The model evaluates polynomial terms, their sums and adjoints in exact integers; every presentation of the real terms must give those numbers.",
      "TLA+ model (Terms.tla) checked by TLC + replay of its terms into the real terms and solves",
      ["term.vf, contr, prod, vf_prod", "the Solution returned by diffeqsolve"]),
    P("A01", "Differentiating a solve gives the derivative of the steps it took",
      "The derivative of any saved output with respect to the initial state, parameters, start, end, first step size and requested times is exactly the "
      "derivative of the steps that were accepted (the verdicts and rescalings held fixed), through events, rejected steps, interpolated and unwritten "
      "outputs, for each of the discretise-then-optimise adjoints, in forward and reverse mode, for any number of checkpoints; and the values do not "
      "change for being differentiated.",
      ["inputs", "schedules", "configurations"], "every schedule of accepted and rejected steps, adjoint, checkpointing, saving option and event",
      "Tests compare adjoints with each other on one smooth problem and never through rejections, events or unwritten outputs with respect to times.",
      ["diffrax/_adjoint.py", I, "diffrax/_solver/runge_kutta.py"],
      [("adjoints", "diffrax/_adjoint.py:RecursiveCheckpointAdjoint, DirectAdjoint, ForwardMode"), ("event time", I + ":diffeqsolve (root find)")],
      "The model carries dual numbers through the solve; values and Jacobians of the real diffeqsolve must agree with it; every other method's derivative "
      "must be the solve of the pair (state, tangent) on the same steps.",
      "TLA+ model (Grad.tla, dual numbers) checked by TLC + Jacobians of diffeqsolve replaying its behaviours", ["jax.jacrev, jax.jacfwd and jax.jvp of diffeqsolve"]),
    P("A02", "The continuous and implicit adjoints solve the adjoint problem they state",
      "Backpropagation by solving backwards steps the augmented system from each saved time to the one before, starting from the saved value, and adds every "
      "cotangent exactly once at the time of its value, whichever times are saved (repeated, at the start, at the end), whichever method and controller are "
      "used, for parameters in the arguments or in the terms and for either direction of time. The implicit adjoint returns the derivative of the implicit "
      "function at the final state.",
      ["inputs", "schedules", "configurations"], "every saving pattern, cotangent, schedule of steps on the way back, method and direction",
      "Tests compare with tolerance on one problem with one-step methods; methods with memory, repeated times and the first and last times are not combined.",
      ["diffrax/_adjoint.py", "diffrax/_term.py"],
      [("backward stretches", "diffrax/_adjoint.py:_loop_backsolve_bwd"), ("augmented system", "diffrax/_term.py:AdjointTerm"), ("implicit", "diffrax/_adjoint.py:ImplicitAdjoint")],
      "The model runs the forward and the backward solve in exact rationals; the gradients of the real diffeqsolve must agree.",
      "TLA+ model (Backsolve.tla, Grad.tla) checked by TLC + gradients of diffeqsolve replaying its behaviours", ["jax.grad of diffeqsolve"]),
    P("W01", "A request that cannot be honoured is refused; any other is honoured",
      "diffeqsolve and the paths refuse, with an error, every request that cannot mean anything: terms whose structure does not fit the method; a driver "
      "without the Levy areas the method needs; non-additive noise for an additive-noise method; adaptive steps for a method without an error estimate (or "
      "for a stochastic equation without a known order of the error, or halved Euler steps); adaptive steps, checkpointed or continuous adjoints with a "
      "path that cannot be asked twice; no first step for fixed steps, one given where the steps are listed, or one pointing away from the end; tolerances "
      "neither given nor to be had from the controller; saved times outside the interval or out of order; listed steps that do not go strictly from the start "
      "to the end; data times that are not strictly increasing, or not numbers; a Brownian tree asked outside its interval; saving every step, or reverse "
      "mode by checkpointing, without a bound on steps; event conditions that are not one real number or truth value; an implicit adjoint of anything but the "
      "end; a continuous adjoint of anything but values at times, of an Ito or split solution, or with an event; and derivatives the adjoint cannot "
      "take. Everything else it honours: the solve runs, and its value and derivatives are those of the equation.",
      ["configurations", "inputs"], "every combination of equation, driver, method, controller, first step, saving, adjoint, event, budget and use, and every list of times",
      "Tests try single bad arguments; the reasons interact across parts (method with term, driver, controller and adjoint), and a refusal lost in one "
      "combination gives silently meaningless numbers.",
      [I, "diffrax/_adjoint.py", "diffrax/_step_size_controller/constant.py", "diffrax/_step_size_controller/pid.py", "diffrax/_global_interpolation.py",
       "diffrax/_brownian/tree.py", "diffrax/_root_finder/_with_tols.py"],
      [("admission", I + ":diffeqsolve, _assert_term_compatible"), ("adjoints", "diffrax/_adjoint.py:loop"), ("lists of times", "diffrax/_step_size_controller/constant.py:StepTo")],
      "TLC enumerates all requests within two changes of a plain one for each equation and method, and all short lists of times; a sample covering every "
      "reason and every pair of choices is made of the real entry points.",
      "TLA+ model (Requests.tla, TimeLists.tla) checked by TLC + its requests made of diffeqsolve and the paths"),
    P("G01", "Progress meters tell how far the solve has come, and leave it alone",
      "A text meter first shows 0 % and last 100 %, exactly once each for a single solve, never goes down, and in between shows a line, with the true "
      "progress from start to end (in either direction of time) of the attempt just made, exactly when progress has grown by more than the least increase "
      "since the last line; rejected attempts are no progress. A progress bar is refreshed at every n-th attempt, with the true progress, and closed at 100 %. "
      "In a batch there is one meter, showing the slowest solve; a line is shown once every solve of the batch has advanced enough or arrived. Nothing is "
      "shown twice when the solve is differentiated, no meter is left open, also when the budget of steps runs out, and the solution, statistics and "
      "derivatives are those without a meter.",
      ["schedules", "configurations"], "every schedule of accepted and rejected attempts, batch of them, meter and least increase",
      "Tests look at the number of lines of one solve with equal steps.",
      ["diffrax/_progress_meter.py", I],
      [("meters", "diffrax/_progress_meter.py:TextProgressMeter, TqdmProgressMeter, _ProgressMeterManager"), ("progress", I + ":body_fun_aux")],
      "TLC checks every schedule of the bounded model, alone and in batches; what the real meters print for each replayed behaviour must agree line by line.",
      "TLA+ model (Meter.tla) checked by TLC + replay of its behaviours with the real meters", ["what is printed to standard output and standard error"]),
    P("S01", "A steady-state event stops exactly when the equation stands still",
      "A solve with a steady-state event ends, reporting an event, at the start or after the first attempt at whose end norm(f) < atol + rtol * norm(y) holds strictly, f being "
      "the vector field at the time, state and arguments then current, and at the time and state then current; if that never happens it runs to its end and "
      "reports success. Each of rtol, atol and the norm is the one given to the event, or else that of the adaptive controller (also when it is "
      "wrapped in one that clips steps); when it is neither, the solve is refused.",
      ["schedules", "configurations"], "every schedule of steps, choice of given and inherited tolerances, equation with rests in time, and direction",
      "Tests solve one decaying problem with one choice of tolerances and look at the final value with a tolerance.",
      ["diffrax/_event.py", I], [("condition", "diffrax/_event.py:steady_state_event"), ("evaluation", I + ":body_fun_aux")],
      "The model solves the equation in exact integers; the real solve must stop at the same attempt, with the same time and state, bit for bit.",
      "TLA+ model (Steady.tla) checked by TLC + exact replay of its behaviours into diffeqsolve"),
]


def main():
    import sys

    src = open(os.path.join(V, "harness", "checks.py")).read()
    for f in os.listdir(os.path.join(V, "harness")):
        if f.endswith(".py"):
            src += open(os.path.join(V, "harness", f)).read()
    done = set(re.findall(r'@check\("([A-Z]\d+)"\)', src))
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"] or ["the Solution returned by diffeqsolve"], hook_needed=None),
            )
            assert len(d["title"]) <= 80, d["title"]
            fh.write(json.dumps(d) + "\n")
    m = dict(
        version=1,
        setup_cmd="python3 tools/setup.py",
        checks=[
            dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick",
                 thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                 technique=p["technique"], level="model_checking", level_note=p["level_note"])
            for p in PROPS if p["id"] in done
        ],
        not_applicable=[dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in done],
        notes="TLA+ (TLC). See DESIGN.md. No hooks in /repo are needed: everything is observed through public extension points.",
    )
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(PROPS), "properties;", len(m["checks"]), "claimed")


if __name__ == "__main__":
    main()
