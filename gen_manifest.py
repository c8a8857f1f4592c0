import json
N={
"C01":"seeded histories of several tasks over all archetypes; every live and stale handle probed through every lookup path against a reference model",
"C02":"seeded structural churn with writes through every mutable path; every read path compared with model values and component instance ids",
"C03":"handle-corruption fault injection (bit flips, boundary indices, freed slot with matching generation, foreign worlds, unchecked conversions) with redzoned/poisoned allocator and AddressSanitizer (thorough: Miri)",
"C04":"instrumented components with a drop registry and an allocator ledger; worlds dropped at arbitrary points, also by unwinding",
"C06":"every iteration form at arbitrary points of seeded histories, Break injected at arbitrary steps, visits compared with the model",
"C07":"ecs_iter_destroy! with seeded decision functions in churned worlds, visits, survivors and direct handles compared with the model",
"C08":"issue history per world kept over reuse, generations preset next to overflow or really aged",
"C09":"direct handles minted by every path, held by tasks and redelivered later, judged by the model's removal counters",
"C10":"panics injected at the k-th closure/Clone/Drop/Into call and library overflow/conflict/allocation-size panics (the last in a 32-bit build), then continued use under all oracles; twin run without the fault for attribution",
"C11":"tasks hold guards across scheduling points and nest runtime-borrowed accesses, unwinding included; reader/writer model per column",
"C12":"all capacities incl. 2^24, refused and refilled at arbitrary points; len/capacity compared with the model, allocator ledger for reallocation",
"C13":"clones at arbitrary points judged by a cloned model, then diverging histories on both; twin runs without the clone for attribution",
"C17":"event logs compared with a model log over all creation/removal paths, clears at arbitrary points, size_hint after each next()",
"C19":"the same seeds executed in all 16 configurations, digests of all outcomes compared; overflow histories and 32-component worlds where configurations may differ",
}
checks=[]
for p,t in N.items():
    checks.append({"property":p,"quick_cmd":"python3 check.py %s --tier quick"%p,"thorough_cmd":"python3 check.py %s --tier thorough"%p,
      "technique":"deterministic simulation with fault injection: "+t,"level":"exploration",
      "level_note":"Seeded search over schedules and faults against an executable reference model; what was explored holds, the rest is sampled, not proved. Trusts the model, the instrumented component types and the simulated allocator; world declarations are seven fixed shapes (C19: in all 16 feature/profile combinations)."})
m=json.load(open("MANIFEST.json"))
m.update({"setup_cmd":"python3 check.py --setup","checks":checks,
 "hooks":{"guard":"cfg(gecs_verif)","enable":"RUSTFLAGS=\"--cfg gecs_verif\" (check.py sets it for every simulator build)","source_commits":["f6f9825"]}})
json.dump(m,open("MANIFEST.json","w"),indent=1)
