"""Synthetic structured runs with diagnostic cycles (reset, HPPC, RPT at three rates)."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import runs

TYPES = ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"]
RATE = {"reset": 0.05, "rpt_0.2C": 0.2, "rpt_1C": 1.0, "rpt_2C": 2.0}
HPPC_STEPS = ["charge_to_soc", "long_rest", "discharge_pulse", "short_rest", "charge_pulse", "discharge_to_next_soc"]


@st.composite
def case(draw, nwmin=2, nwmax=10, resmin=12, resmax=16):
    return dict(nom=draw(st.sampled_from([1.1, 4.84, 3.0])), nd=draw(st.integers(2, 3)),
                reg=[draw(st.integers(2, 6)) for _ in range(4)], b0=draw(st.integers(3, 9)), b1=draw(st.integers(30, 60)),
                b2=draw(st.sampled_from([0, 0, 7])), nw=[draw(st.integers(nwmin, nwmax)) for _ in range(3)],
                res=draw(st.integers(resmin, resmax)), fin=draw(st.booleans()), nan=draw(st.integers(0, 2)),
                seq=draw(st.integers(1, 400)), win=draw(st.booleans()), late=draw(st.integers(0, 3)) == 0,
                allsum=draw(st.booleans()), seed=draw(st.integers(0, 2**31)),
                cc=[draw(st.integers(1, 8)), draw(st.integers(1, 8))], fade=draw(st.integers(0, 12)))


def layout(c):
    """-> diagnostic cycle indices per diagnostic, regular cycle indices"""
    ix, diag, reg = 1, [], []
    for k in range(c["nd"]):
        diag.append(list(range(ix, ix + 5)))
        ix += 5
        reg += list(range(ix, ix + c["reg"][k]))
        ix += c["reg"][k]
    return diag, [0] + reg


def parameters(c, path):
    rng = np.random.RandomState(c["seed"] % 1000)
    rows = []
    for s in sorted({c["seq"], c["seq"] + 1, max(1, c["seq"] - 1), 7}):
        rows.append(dict(project_name="Proj", seq_num=s, template="diagnosticV2.000",
                         charge_constant_current_1=(c["cc"][0] if s == c["seq"] else 9) / 2.0,
                         charge_percent_limit_1=30,
                         charge_constant_current_2=(c["cc"][1] if s == c["seq"] else 1) / 2.0,
                         charge_cutoff_voltage=4.0 + rng.randint(0, 4) / 20.0, charge_constant_voltage_time=rng.randint(1, 90),
                         charge_rest_time=5, discharge_constant_current=rng.randint(1, 5) / 2.0,
                         discharge_cutoff_voltage=2.5 + rng.randint(0, 5) / 10.0, discharge_rest_time=15,
                         cell_temperature_nominal=25, cell_type="x",
                         capacity_nominal=c["nom"] if s == c["seq"] else 77.0, diagnostic_type="HPPC+RPT",
                         diagnostic_parameter_set="Tesla21700", diagnostic_start_cycle=c["reg"][0],
                         diagnostic_interval=c["reg"][1] + s % 3))
    df = pd.DataFrame(rows)
    df.to_csv(os.path.join(path, "Proj_parameters - GP.csv"), index=False)
    return df[df.seq_num == c["seq"]].iloc[0]


class B:
    """rows of one diagnostic table"""

    def __init__(self, c, rng):
        self.c, self.rng, self.t, self.out = c, rng, 1000.0, []

    def add(self, ci, ty, si, cnt, st_type, n, dur, cur, v0, v1, q0, q1, charge, nan=0, shape=None):
        rng = self.rng
        tt = np.round(rng.uniform(0.05, 0.95, n - 2) * dur * 65536) / 65536     # exact sums and differences
        tt = self.t + np.sort(np.concatenate([[0.0], tt, [round(dur * 1024) / 1024]]))
        if dur < 100 and n > 6:            # pulses need points inside the first seconds
            tt[1:4] = self.t + np.array([2.0 ** -11, 1.5, [2.9375, 3.0, 3.0625][rng.randint(3)]])
            tt = np.sort(tt)
        w = (tt - tt[0]) / dur
        q = q0 + (q1 - q0) * w
        v = v0 + (v1 - v0) * w ** 0.7 + rng.uniform(-1e-3, 1e-3, n) if shape is None else shape(q)
        d = pd.DataFrame(dict(
            voltage=v, test_time=tt, current=cur + rng.uniform(-1, 1, n) * 1e-4 * abs(cur),
            internal_resistance=0.02, charge_capacity=q if charge > 0 else 5.0,
            discharge_capacity=q if charge < 0 else 0.3, charge_energy=q * 3.7 + 0.01 * w if charge > 0 else 18.0,
            discharge_energy=q * 3.6 + 0.02 * w if charge < 0 else 1.1, temperature=25.0))
        d["cycle_index"], d["cycle_type"], d["step_index"], d["step_index_counter"], d["step_type"] = ci, ty, si, cnt, st_type
        d["discharge_dQdV"] = rng.uniform(-3, 3, n) if charge < 0 else rng.uniform(0, 0.1, n)
        d["charge_dQdV"] = rng.uniform(-3, 3, n) if charge > 0 else rng.uniform(0, 0.1, n)
        cols = ["current", "test_time", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
                "discharge_dQdV", "charge_dQdV"]
        if nan:
            d.loc[d.index[-nan:], cols] = np.nan
        self.out.append(d)
        self.t += round(dur * 1024) / 1024 + 0.5


def diagnostic_data(c, rng):
    diag, _ = layout(c)
    b = B(c, rng)
    nom, n = c["nom"], c["res"]
    truth = {}
    for k, cyc in enumerate(diag):
        base = [c["b0"], c["b1"], c["b1"] + c["b2"]][k]
        fade = 1 - 0.01 * c["fade"] * k
        si = base
        for ci, ty in zip(cyc, TYPES):
            if ty != "hppc":
                r = RATE[ty]
                b.add(ci, ty, si, 1, 0, n, 3600 / r * 0.9, r * nom, 3.0, 4.2, 0.001, nom * fade, 1, c["nan"])
                b.add(ci, ty, si + 1, 2, 1, n, 3600 / r * 0.9, -r * nom, 4.2, 2.8, 0.001, nom * fade * 0.99, -1, c["nan"])
                truth[k, ty] = {f"{ty}_charge": si, f"{ty}_discharge": si + 1}
                si += 3
                continue
            steps = {"hppc_" + s: si + j for j, s in enumerate(HPPC_STEPS)}
            cnt = 1
            b.add(ci, ty, steps["hppc_charge_to_soc"], cnt, 0, n, 7200, 0.5 * nom, 3.0, 4.2, 0.001, nom, 1)
            q = 0.01
            nw = c["nw"][k]
            poly = rng.uniform(-0.3, 0.0, 3)
            for w in range(nw):
                v = 4.1 - 0.12 * w
                ocv = v + rng.uniform(-0.02, 0.02)
                rest = rng.uniform(0.001, 0.004)

                def flat(n_):
                    x = np.full(n_, ocv)
                    x[: max(0, n_ - 11)] += rest * np.linspace(1, 0.1, max(0, n_ - 11))
                    return x
                m = n + 11
                b.add(ci, ty, steps["hppc_long_rest"], cnt + 1, 1, m, 3600, 0.0, v, v, 0, 0, 0, shape=lambda q_: flat(len(q_)))
                b.add(ci, ty, steps["hppc_discharge_pulse"], cnt + 2, 2, n, 30, -rng.uniform(0.7, 1.2) * nom, ocv - 0.05, ocv - 0.09, q, q + 0.004 * nom, -1)
                td = 40.0
                b.add(ci, ty, steps["hppc_short_rest"], cnt + 3, 3, n, td, 0.0, ocv - 0.03, ocv - rng.uniform(0.005, 0.02), 0, 0, 0)
                b.add(ci, ty, steps["hppc_charge_pulse"], cnt + 4, 4, n, 30, rng.uniform(0.6, 1.0) * nom, ocv + 0.03, ocv + 0.07, 0.1, 0.13, 1)
                q += 0.005 * nom
                q1 = q + 0.09 * nom * (1 + 0.05 * k)
                a = rng.uniform(-0.5, 0.5, 3) * 0.2
                qm = q
                sh = lambda x, a=a, v=v, qm=qm: v - 0.1 - 0.4 * (x - qm) / nom + a[0] * ((x - qm) / nom) ** 2 + a[1] * ((x - qm) / nom) ** 3
                b.add(ci, ty, steps["hppc_discharge_to_next_soc"], cnt + 5, 5, n, 720, -0.5 * nom, 0, 0, q, q1, -1, shape=sh)
                truth[k, "poly", w] = (sh,)
                q = q + 0.092 * nom
                cnt += 5
            if c["fin"]:
                steps["hppc_final_discharge"] = si + 7
                b.add(ci, ty, si + 7, cnt + 1, 6, n, 3000, -0.2 * nom, 3.1, 2.7, q, q + 0.1, -1)
            truth[k, ty] = steps
            si += 9
        b.t += 20000
    df = pd.concat(b.out, ignore_index=True)
    if c["late"]:
        # a final diagnostic appended with a wrong (low) cycle number
        x = df[(df.cycle_index == diag[0][2])].copy()
        x["test_time"] = x["test_time"] + 5000000.0
        for col in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"):
            x[col] = x[col] * 0.5
        df = pd.concat([df, x[x.test_time.notna()]], ignore_index=True)
    df = df.astype(dict(cycle_index="int32", cycle_type="category", step_index="int16", step_index_counter="int16",
                        step_type="category"))
    return df, truth


def summaries(c, rng):
    diag, reg = layout(c)
    nom = c["nom"]
    rows = []
    for k, cyc in enumerate(diag):
        for ci, ty in zip(cyc, TYPES):
            f = nom * (1 - 0.01 * c["fade"] * k) * {"reset": 1.0, "hppc": 1.01, "rpt_0.2C": 0.98, "rpt_1C": 0.95, "rpt_2C": 0.9}[ty]
            f *= 1 - 0.001 * rng.randint(0, 5)
            rows.append(dict(cycle_index=ci, discharge_capacity=f, charge_capacity=f * 1.01 + 0.001 * rng.randint(9), discharge_energy=f * 3.6 * (1 - 0.001 * rng.randint(9)),
                             charge_energy=f * 3.8 + 0.001 * rng.randint(9), temperature_maximum=30.0, temperature_average=25.0,
                             temperature_minimum=22.0, date_time_iso=runs.iso(1500000000 + ci * 40000 + rng.randint(0, 3000)),
                             coulombic_efficiency=0.99, paused=0, cycle_type=ty))
    d = pd.DataFrame(rows)
    ixs = sorted(set(reg) | ({i for cyc in diag for i in cyc} if c["allsum"] else set()))
    n = len(ixs)
    cap = nom * (0.8 - 0.002 * np.arange(n) + rng.randint(0, 9, n) * 0.001)
    s = pd.DataFrame(dict(
        cycle_index=np.array(ixs, dtype="int32"), discharge_capacity=cap, charge_capacity=cap * 1.01,
        discharge_energy=cap * 3.5 + rng.randint(0, 9, n) * 0.001, charge_energy=cap * 3.8, dc_internal_resistance=np.full(n, 0.02, dtype="float32"),
        temperature_maximum=np.full(n, 30, dtype="float32"), temperature_average=np.full(n, 27, dtype="float32"),
        temperature_minimum=np.full(n, 22, dtype="float32"), date_time_iso=[runs.iso(1500000000 + 40000 * i) for i in ixs],
        energy_efficiency=np.full(n, 0.9, dtype="float32"), charge_throughput=np.cumsum(cap * 1.01),
        energy_throughput=np.cumsum(cap * 3.8), charge_duration=np.full(n, 500.0),
        time_temperature_integrated=np.full(n, 500.0), paused=np.zeros(n, dtype="int32")))
    return s, d


def structured_data(c, rng, cv=True):
    """interpolated regular cycles with a CC then CV charge"""
    _, reg = layout(c)
    out, t = [], 0.0
    for ci in reg:
        n = 12
        k = int(rng.randint(3, 10))      # CV starts here
        tt = t + np.cumsum(rng.uniform(50, 400, n))
        v = np.concatenate([np.linspace(3.2, 4.1, k), np.full(n - k, 4.1)])
        i = np.concatenate([np.full(k, c["nom"]), c["nom"] * np.linspace(0.9, 0.1, n - k)])
        a = pd.DataFrame(dict(voltage=v, test_time=tt, current=i, internal_resistance=0.02,
                              charge_capacity=np.linspace(0, c["nom"], n), discharge_capacity=0.0,
                              charge_energy=np.linspace(0, 4 * c["nom"], n), discharge_energy=0.0, temperature=25.0))
        a["step_type"] = "charge"
        t2 = tt[-1] + np.cumsum(rng.uniform(50, 400, n))
        b = pd.DataFrame(dict(voltage=np.linspace(4.1, 2.8, n), test_time=t2, current=-c["nom"], internal_resistance=0.02,
                              charge_capacity=c["nom"], discharge_capacity=np.linspace(0, c["nom"], n) * rng.uniform(0.8, 1),
                              charge_energy=4 * c["nom"], discharge_energy=np.linspace(0, 3.9 * c["nom"], n) * rng.uniform(0.8, 1), temperature=25.0))
        b["step_type"] = "discharge"
        d = pd.concat([a, b], ignore_index=True)
        d["cycle_index"] = ci
        out.append(d)
        t = t2[-1] + 100.0
    return pd.concat(out, ignore_index=True).astype({"cycle_index": "int32", "step_type": "category"})


def build(c, path, data=True):
    """-> datapath, truth (step numbers), parameter row"""
    from props.c14 import base
    rng = np.random.RandomState(c["seed"])
    row = parameters(c, path)
    dp = base()
    name = f"Proj_{c['seq']:06d}.000"
    dp.metadata.raw.update(protocol=("proj\\sub\\" if c["win"] else "proj/sub/") + name, barcode="0000A1", channel_id=5)
    dp.metadata.protocol = dp.metadata.raw["protocol"]
    dp.paths = {"raw": os.path.join(path, f"Proj_{c['seq']:06d}_0000A1.005"),
                "structured": os.path.join(path, f"Proj_{c['seq']:06d}_0000A1_structure.json")}
    truth = {}
    if data:
        dp.diagnostic_data, truth = diagnostic_data(c, rng)
    dp.structured_summary, d = summaries(c, rng)
    dp.diagnostic_summary = d.astype({"cycle_index": "int32", "cycle_type": "category"})
    dp.structured_data = structured_data(c, rng)
    return dp, truth, row
