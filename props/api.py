"""The public accessor surface: which quantity each accessor must report.

('s', path)              scalar member
('x', count, array)      indexed: array[i] for 0 <= i < count, else -1
"""
N = ("neutronNu",)
G = ("photonNu",)
PF = ("preFissionNeutronNu",)

CPP = {
    "cgmEvent::getNeutronNu": ("s", N), "cgmEvent::getPhotonNu": ("s", G),
    "cgmfEvent::getPreFissionNeutronNu": ("s", PF),
    "cgmfEvent::getTargetNucleus": ("s", ("ZAIDt",)), "cgmfEvent::getIncidentEnergy": ("s", ("incidentEnergy",)),
}
for a, f in (("Energy", "Energies"), ("Dircosu", "Dircosu"), ("Dircosv", "Dircosv"), ("Dircosw", "Dircosw"), ("Age", "Ages")):
    CPP["cgmEvent::getNeutron" + a] = ("x", "neutronNu", "neutron" + f)
    CPP["cgmEvent::getPhoton" + a] = ("x", "photonNu", "photon" + f)
    if a != "Age":
        CPP["cgmEvent::getCmNeutron" + a] = ("x", "neutronNu", "cmNeutron" + f)
        CPP["cgmfEvent::getPreFissionNeutron" + a] = ("x", "preFissionNeutronNu", "preFissionNeutron" + f)
SC = {"Mass": ("A",), "Charge": ("Z",), "KineticEnergy": ("KE",), "KineticEnergyPost": ("KEpost",), "ExcitationEnergy": ("U",),
      "Spin": ("spin",), "Parity": ("parity",), "NeutronNu": ("nu",), "PhotonNu": ("nug",),
      "PreMomentumX": ("preFragmentMomentum", 0), "PreMomentumY": ("preFragmentMomentum", 1), "PreMomentumZ": ("preFragmentMomentum", 2),
      "PostMomentumX": ("postFragmentMomentum", 0), "PostMomentumY": ("postFragmentMomentum", 1), "PostMomentumZ": ("postFragmentMomentum", 2),
      "Dircosu": ("fragmentDircosu",), "Dircosv": ("fragmentDircosv",), "Dircosw": ("fragmentDircosw",)}
for side, ev in (("Light", "eventLF"), ("Heavy", "eventHF")):
    for k, v in SC.items():
        CPP["cgmfEvent::get%sFragment%s" % (side, k)] = ("s", (ev,) + v)

CAPI = {"cgmf_getnnu": "cgmEvent::getNeutronNu", "cgmf_getgnu": "cgmEvent::getPhotonNu", "cgmf_getprennu": "cgmfEvent::getPreFissionNeutronNu",
        "cgmf_getnerg": "cgmEvent::getNeutronEnergy", "cgmf_getcmnerg": "cgmEvent::getCmNeutronEnergy", "cgmf_getntme": "cgmEvent::getNeutronAge",
        "cgmf_getgerg": "cgmEvent::getPhotonEnergy", "cgmf_getgtme": "cgmEvent::getPhotonAge", "cgmf_getprenerg": "cgmfEvent::getPreFissionNeutronEnergy"}
for c in "uvw":
    CAPI["cgmf_getndircos" + c] = "cgmEvent::getNeutronDircos" + c
    CAPI["cgmf_getcmndircos" + c] = "cgmEvent::getCmNeutronDircos" + c
    CAPI["cgmf_getgdircos" + c] = "cgmEvent::getPhotonDircos" + c
    CAPI["cgmf_getprendircos" + c] = "cgmfEvent::getPreFissionNeutronDircos" + c
    CAPI["cgmf_getlfdircos" + c] = "cgmfEvent::getLightFragmentDircos" + c
    CAPI["cgmf_gethfdircos" + c] = "cgmfEvent::getHeavyFragmentDircos" + c
for s, side in (("lf", "Light"), ("hf", "Heavy")):
    for a, b in (("mass", "Mass"), ("charge", "Charge"), ("ke", "KineticEnergy"), ("kepost", "KineticEnergyPost"), ("u", "ExcitationEnergy"),
                 ("spin", "Spin"), ("parity", "Parity"), ("nnu", "NeutronNu"), ("gnu", "PhotonNu"),
                 ("premomentum_x", "PreMomentumX"), ("premomentum_y", "PreMomentumY"), ("premomentum_z", "PreMomentumZ"),
                 ("postmomentum_x", "PostMomentumX"), ("postmomentum_y", "PostMomentumY"), ("postmomentum_z", "PostMomentumZ")):
        CAPI["cgmf_get%s%s" % (s, a)] = "cgmfEvent::get%sFragment%s" % (side, b)
