"""Reference translation of v3 telemetry: names and units from the schema comments and the SondeHub-amateur field names."""


def out_time(t):
    return "%02d:%02d:%02d" % (t // 3600 % 24, t // 60 % 60, t % 60)


def v3(v, names):
    out = {"crc_ok": True, "modulation": "Horus Binary v3"}
    custom = []
    call = v["payloadCallsign"]
    out["payload_id"] = call
    out["callsign"] = call
    out["sequence_number"] = v["sequenceNumber"]
    out["latitude"] = v["latitude"] / 100000
    out["longitude"] = v["longitude"] / 100000
    out["time"] = out_time(v["timeOfDaySeconds"])
    if v["altitudeMeters"] != -1000: out["altitude"] = v["altitudeMeters"]
    if "gnssSatellitesVisible" in v: out["satellites"] = v["gnssSatellitesVisible"]
    if "velocityHorizontalKilometersPerHour" in v: out["speed"] = v["velocityHorizontalKilometersPerHour"]
    if "ascentRateCentimetersPerSecond" in v:
        out["ascent_rate"] = v["ascentRateCentimetersPerSecond"] / 100
        custom.append("ascent_rate")
    if "pressurehPa-x10" in v:
        out["ext_pressure"] = v["pressurehPa-x10"] / 10
        custom.append("ext_pressure")
    if "humidityPercentage" in v:
        out["ext_humidity"] = v["humidityPercentage"]
        custom.append("ext_humidity")
    if "temperatureCelsius-x10" in v:
        t = v["temperatureCelsius-x10"]
        if "internal" in t: out["temperature"] = t["internal"] / 10
        if "external" in t:
            out["ext_temperature"] = t["external"] / 10
            custom.append("ext_temperature")
        if "custom1" in t:
            out["temperature_custom_1"] = t["custom1"] / 10
            custom.append("temperature_custom_1")
        if "custom2" in t:
            out["temperature_custom_2"] = t["custom2"] / 10
            custom.append("temperature_custom_2")
    if "milliVolts" in v:
        m = v["milliVolts"]
        if "battery" in m: out["battery_voltage"] = m["battery"] / 1000
        for k in ("solar", "custom1", "custom2"):
            if k in m:
                out[k + "_voltage"] = m[k] / 1000
                custom.append(k + "_voltage")
    if "gnssPowerSaveState" in v:
        out["gnss_power_save_state"] = v["gnssPowerSaveState"]
        custom.append("gnss_power_save_state")
    if "counts" in v:
        n = 0
        for c in v["counts"]:
            out["count_" + str(n)] = c
            custom.append("count_" + str(n))
            n = n + 1
    if "via" in v: out["via"] = v["via"]
    if "customData" in v:
        out["custom_data"] = v["customData"].hex()
        custom.append("custom_data")
    if "extraSensors" in v:
        i = 0
        for s in v["extraSensors"]:
            name = "unknown"
            if "name" in s:
                name = s["name"]
                names[(call, i)] = name
            elif (call, i) in names:
                name = names[(call, i)]
            if "values" in s:
                kind, val = s["values"]
                stem = name + "_" + str(i)
                if kind == "horusStr":
                    out[stem] = val
                    custom.append(stem)
                elif kind == "horusBool":
                    for b in ("b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"):
                        out[stem + "_" + b] = val[b]
                        custom.append(stem + "_" + b)
                else:
                    j = 0
                    for x in val:
                        out[stem + "_" + str(j)] = x
                        custom.append(stem + "_" + str(j))
                        j = j + 1
            i = i + 1
    out["custom_field_names"] = custom
    return out
