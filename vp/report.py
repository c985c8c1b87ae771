"""Reading the columnar report back, without caring about alignment."""
import re

NUM = r"-?(?:inf|nan|\d+(?:\.\d+)?(?:e[+-]?\d+)?)"


class Unreadable(ValueError):
    pass


def header(text, name):
    got = re.findall(rf'^\s*{re.escape(name)}:\s*"(.*?)"', text, re.M)
    if len(got) != 1:
        raise Unreadable(f"{len(got)} lines for {name!r}")
    return got[0]


def position(text):
    return tuple(float(x) for x in text.strip().strip("()").split(","))


def numbers(text):
    return tuple(float(x) for x in re.findall(NUM, text))


def fields(line, names):
    """The values of a row of 'NAME: value' fields, in the given order."""
    rx = r"^\s*" + r"\s+".join(rf"{n}:\s*(.*?)" for n in names) + r"\s*$"
    m = re.match(rx, line)
    if not m:
        raise Unreadable(f"row {line!r} has no fields {names}")
    return dict(zip(names, m.groups()))


def parse(text):
    """The report as data: header values and one entry per route."""
    out = dict(
        uuid=header(text, "Planning UUID"),
        routes_count=int(header(text, "Routes count")),
        seconds=float(header(text, "Computation time")),
        coverage=float(header(text, "Coverage Rate")),
        objective=header(text, "Objective"),
        value=numbers(header(text, "Optimization Value")),
        feasible=header(text, "Feasible"),
        direction=header(text, "Direction"),
        routes=[],
    )
    lines = text.split("\n")
    k = next(i for i, x in enumerate(lines) if x.strip() == "Routes:") + 1
    end = next(i for i, x in enumerate(lines) if x.lstrip().startswith("Computation time:"))
    body = [x for x in lines[k:end] if x.strip()]
    j = 0
    while j < len(body):
        if body[j].strip() != "Vehicle:":
            raise Unreadable(f"unexpected row {body[j]!r}")
        j += 1
        route = dict(vehicle={}, trips=[], stops=[])
        while j < len(body) and not body[j].lstrip().startswith("Planned Trips:"):
            name, value = body[j].split(":", 1)
            route["vehicle"][name.strip()] = value.strip().strip('"')
            j += 1
        route["n_trips"] = int(header(body[j], "Planned Trips"))
        j += 1
        while j < len(body) and not body[j].lstrip().startswith("Stops:"):
            f = fields(body[j], ("ID", "P", "TW", "WT", "NT", "LT", "TT", "T", "L"))
            a, b = f["P"].split(" to ")
            route["trips"].append(
                dict(
                    id=f["ID"], p=(position(a), position(b)), tw=numbers(f["TW"]), wt=float(f["WT"]), nt=float(f["NT"]),
                    lt=float(f["LT"]), tt=float(f["TT"]), t=numbers(f["T"].replace(" to ", " ")), load=float(f["L"]),
                )
            )
            j += 1
        route["n_stops"] = int(header(body[j], "Stops"))
        j += 1
        while j < len(body) and body[j].strip() != "Vehicle:":
            f = fields(body[j], ("ID", "P", "TW", "WT", "NT", "LT", "DT", "L"))
            route["stops"].append(
                dict(
                    id=f["ID"], p=position(f["P"]), tw=numbers(f["TW"]), wt=float(f["WT"]), nt=float(f["NT"]),
                    lt=float(f["LT"]), dt=float(f["DT"]), load=float(f["L"]),
                )
            )
            j += 1
        out["routes"].append(route)
    return out
