"""What the methods of CGMFtk return, in terms of the columns of the history / yields file.

This text is never executed: it is read by the same abstract evaluator as the toolkit.
self.A, self.nu, ... are the columns (one entry per fragment; light fragments are the even
rows); nEcm, nElab, gE, ages, ncm, nlab, preE, preDir are columns of lists."""


class Histories:
    def getNumberFragments(self):
        return 2 * self.NE

    def getNumberEvents(self):
        return self.NE

    def getTimeCoincidenceWindow(self):
        return self.time

    def getA(self):
        return self.A

    def getZ(self):
        return self.Z

    def getN(self):
        return self.A - self.Z

    def getU(self):
        return self.U

    def getJ(self):
        return self.J

    def getP(self):
        return self.P

    def getKEpre(self):
        return self.KEpre

    def getKEpost(self):
        return self.KEpost

    def getNu(self):
        return self.nu

    def getNuEvent(self):
        return self.nu[::2] + self.nu[1::2]

    def getNuEnergyCut(self, Eth):
        out = []
        for e in self.nElab:
            x = np.array(e)
            out.append(len(x[x > Eth]))
        return np.array(out)

    def getNuLF(self):
        return self.nu[::2]

    def getNuHF(self):
        return self.nu[1::2]

    def getNutot(self):
        return self.nu[::2] + self.nu[1::2] + self.preNu[1::2]

    def getPreFissionNu(self):
        return self.preNu[1::2]

    def getNug(self):
        return self.nug

    def getNugEnergyCut(self, Eth):
        out = []
        for e in self.gE:
            x = np.array(e)
            out.append(len(x[x > Eth]))
        return np.array(out)

    def getNugLF(self):
        return self.nug[::2]

    def getNugHF(self):
        return self.nug[1::2]

    def getNugtot(self):
        return self.nug[::2] + self.nug[1::2]

    def getTKEpre(self):
        return self.KEpre[::2] + self.KEpre[1::2]

    def getTKEpost(self):
        return self.KEpost[::2] + self.KEpost[1::2]

    def getTXE(self):
        return self.U[::2] + self.U[1::2]

    def getNeutronElab(self):
        return self.nElab

    def getNeutronEcm(self):
        return self.nEcm

    def getGammaElab(self):
        return self.gE

    def getGammaAges(self):
        return self.ages

    def getPreFissionNeutronElab(self):
        return self.preE[1::2]

    def getPreFissionNeutronDircos(self):
        return self.preDir[1::2]

    def getFragmentMomentumPre(self):
        return self.pre

    def getFragmentMomentumPost(self):
        return self.post

    def getLabNeutronDircos(self):
        return self.nlab

    def getcmNeutronDircos(self):
        return self.ncm

    def getALF(self):
        return self.A[::2]

    def getZLF(self):
        return self.Z[::2]

    def getNLF(self):
        return self.A[::2] - self.Z[::2]

    def getULF(self):
        return self.U[::2]

    def getJLF(self):
        return self.J[::2]

    def getPLF(self):
        return self.P[::2]

    def getKELF(self):
        return self.KEpre[::2]

    def getAHF(self):
        return self.A[1::2]

    def getZHF(self):
        return self.Z[1::2]

    def getNHF(self):
        return self.A[1::2] - self.Z[1::2]

    def getUHF(self):
        return self.U[1::2]

    def getJHF(self):
        return self.J[1::2]

    def getPHF(self):
        return self.P[1::2]

    def getKEHF(self):
        return self.KEpre[1::2]

    # averages
    def nubar(self):
        return np.mean(self.nu)

    def nubartot(self):
        return np.mean(self.nu[::2] + self.nu[1::2] + self.preNu[1::2])

    def nubarg(self, timeWindow=None, Eth=None):
        if Eth is None:
            Eth = 0.0
        if timeWindow is not None:
            times = timeWindow
            if timeWindow is True:
                times = np.logspace(-9, 0, 15)
            t = []
            e = []
            for i in range(2 * self.NE):
                t += self.ages[i]
                e += self.gE[i]
            t = np.array(t)
            e = np.array(e)
            out = []
            for x in times:
                out.append(len(t[np.logical_and(t <= x, e >= Eth)]))
            return times, np.array(out) / self.NE
        n = []
        for x in self.gE:
            x = np.array(x)
            n.append(len(x[x >= Eth]))
        return np.mean(n)

    def nubargtot(self, timeWindow=None, Eth=None):
        if Eth is None:
            Eth = 0.0
        if timeWindow is not None:
            times = timeWindow
            if timeWindow is True:
                times = np.logspace(-9, 0, 15)
            ages = self.ages[::2] + self.ages[1::2]
            en = self.gE[::2] + self.gE[1::2]
            t = []
            e = []
            for i in range(self.NE):
                t += ages[i]
                e += en[i]
            t = np.array(t)
            e = np.array(e)
            out = []
            for x in times:
                out.append(len(t[np.logical_and(t <= x, e >= Eth)]))
            return times, np.array(out) / self.NE
        n = []
        for x in self.gE[::2] + self.gE[1::2]:
            x = np.array(x)
            n.append(len(x[x >= Eth]))
        return np.mean(n)

    def preFissionNubar(self):
        return np.mean(self.preNu[1::2])

    def _mean(self, x):
        l = []
        for e in x:
            l += e
        return np.mean(l)

    def meanNeutronElab(self):
        l = []
        for e in self.nElab:
            l += e
        n = self.preNu[1::2]
        p = self.preE[1::2]
        for i in range(self.NE):
            if n[i] > 0:
                l += p[i]
        return np.mean(l)

    def meanNeutronElabLF(self):
        return self._mean(self.nElab[::2])

    def meanNeutronElabHF(self):
        return self._mean(self.nElab[1::2])

    def meanNeutronElabFragments(self):
        return self._mean(self.nElab)

    def meanNeutronEcmFragments(self):
        return self._mean(self.nEcm)

    def meanNeutronEcmLF(self):
        return self._mean(self.nEcm[::2])

    def meanNeutronEcmHF(self):
        return self._mean(self.nEcm[1::2])

    def meanPreFissionNeutronElab(self):
        n = self.preNu[1::2]
        p = self.preE[1::2]
        l = []
        for i in range(self.NE):
            if n[i] > 0:
                l += p[i]
        if len(l) > 0:
            return np.mean(l)
        return 0.0

    def meanGammaElab(self):
        return self._mean(self.gE)

    def meanGammaElabLF(self):
        return self._mean(self.gE[::2])

    def meanGammaElabHF(self):
        return self._mean(self.gE[1::2])

    # distributions
    def _dist(self, n):
        top = np.max(n)
        k = np.arange(0, top + 1)
        p = np.zeros(top + 1)
        for i in k:
            p[i] = len(n[n == i]) / self.NE
        return k, p

    def Pnu(self, Eth=None):
        if Eth is None:
            return self._dist(self.nu[::2] + self.nu[1::2] + self.preNu[1::2])
        n = []
        e = self.nElab[::2] + self.nElab[1::2]
        k = self.preNu[1::2]
        p = self.preE[1::2]
        for i in range(self.NE):
            x = e[i]
            if k[i] > 0:
                x = x + p[i]
            x = np.array(x)
            n.append(len(x[x >= Eth]))
        return self._dist(np.array(n))

    def Pnug(self, Eth=None):
        if Eth is None:
            return self._dist(self.nug[::2] + self.nug[1::2])
        n = []
        for x in self.gE[::2] + self.gE[1::2]:
            x = np.array(x)
            n.append(len(x[x >= Eth]))
        return self._dist(np.array(n))

    # as a function of mass and of total kinetic energy
    def _byA(self, q):
        a = np.arange(np.min(self.A), np.max(self.A) + 1)
        y = np.zeros(len(a))
        for i in range(len(a)):
            r = q[self.A == a[i]]
            if len(r) > 0:
                y[i] = np.mean(r)
            else:
                y[i] = 0.0
        return a, y

    def nubarA(self):
        return self._byA(self.nu)

    def UA(self):
        return self._byA(self.U)

    def spinA(self):
        return self._byA(self.J)

    def TKEA(self):
        t = np.zeros(2 * self.NE)
        t[::2] = self.KEpre[::2] + self.KEpre[1::2]
        t[1::2] = t[::2]
        return self._byA(t)

    def nubargA(self, Eth=0.0):
        n = []
        for e in self.gE:
            x = np.array(e)
            n.append(len(x[x >= Eth]))
        n = np.array(n)
        As = []
        y = []
        for a in range(np.min(self.A), np.max(self.A) + 1):
            m = self.A == a
            As.append(a)
            if len(n[m]) == 0:
                y.append(0)
            else:
                y.append(np.mean(n[m]))
        return np.array(As), np.array(y)

    def _byTKE(self, q, T):
        tke = self.KEpre[::2] + self.KEpre[1::2]
        x = np.arange(np.min(tke), np.max(tke))
        y = np.zeros(len(x))
        for i in range(len(x) - 1):
            r = q[np.logical_and(T >= x[i], T < x[i + 1])]
            if len(r) > 0:
                y[i] = np.mean(r)
            else:
                y[i] = 0.0
        return x, y

    def nubarTKE(self):
        return self._byTKE(self.nu[::2] + self.nu[1::2], self.KEpre[::2] + self.KEpre[1::2])

    def nubargTKE(self):
        return self._byTKE(self.nug[::2] + self.nug[1::2], self.KEpre[::2] + self.KEpre[1::2])

    def _twice(self):
        T = []
        for x in self.KEpre[::2] + self.KEpre[1::2]:
            T.append(x)
            T.append(x)
        return np.array(T)

    def UTKE(self):
        return self._byTKE(self.U, self._twice())

    def spinTKE(self):
        return self._byTKE(self.J, self._twice())

    # spectra
    def pfns(self, Eth=None):
        if Eth is None:
            Eth = 0.0
        grid = np.logspace(-3, 2, 100)
        width = grid[1:] - grid[:-1]
        l = []
        for x in self.nElab[1::2] + self.nElab[::2] + self.preE[1::2]:
            l += x
        l = np.array(l)
        h, edges = np.histogram(l[l >= Eth], bins=grid)
        return 0.5 * (edges[1:] + edges[:-1]), h / width / np.sum(h)

    def pfgs(self, Eth=None, minTime=None, maxTime=None):
        if Eth is None:
            Eth = 0.0
        grid = np.logspace(-1, 1, 200)
        width = grid[1:] - grid[:-1]
        l = []
        for x in self.gE:
            l += x
        l = np.array(l)
        if minTime is not None and maxTime is not None:
            a = []
            for x in self.ages:
                a += x
            a = np.array(a)
            l = l[np.logical_and(np.logical_and(a >= minTime, a <= maxTime), l >= Eth)]
        else:
            l = l[l >= Eth]
        h, edges = np.histogram(l, bins=grid)
        return (0.5 * (edges[1:] + edges[:-1]),
                h / width / np.sum(h) * np.mean(self.nug[::2] + self.nug[1::2]))

    # angles
    def FFangles(self, afterEmission=None):
        if afterEmission is None:
            afterEmission = True
        if afterEmission:
            p = self.post
        else:
            p = self.pre
        return p[:, 2] / np.sum(p ** 2, axis=1) ** 0.5

    def nangles(self, Eth=None, lab=None, includePrefission=None):
        if Eth is None:
            Eth = 0.0
        if lab is None:
            lab = True
        if lab:
            e = self.nElab
            c = self.nlab
            withPre = includePrefission
            if includePrefission is None:
                withPre = True
        else:
            e = self.nEcm
            c = self.ncm
            withPre = False
        cAll = []
        cL = []
        cH = []
        eAll = []
        eL = []
        eH = []
        for i in range(self.NE):
            eL += e[::2][i]
            cL += c[::2][i]
            eAll += e[::2][i]
            cAll += c[::2][i]
        for i in range(self.NE):
            eH += e[1::2][i]
            cH += c[1::2][i]
            eAll += e[1::2][i]
            cAll += c[1::2][i]
        if withPre:
            n = self.preNu[1::2]
            for i in range(self.NE):
                if n[i] > 0:
                    eAll += self.preE[1::2][i]
                    cAll += self.preDir[1::2][i]
        eL = np.array(eL)
        eH = np.array(eH)
        eAll = np.array(eAll)
        cL = np.array(cL)
        cH = np.array(cH)
        cAll = np.array(cAll)
        return cAll[eAll >= Eth][:, 2], cL[eL >= Eth][:, 2], cH[eH >= Eth][:, 2]

    def nFangles(self, Eth=None, afterEmission=None, includePrefission=None):
        if Eth is None:
            Eth = 0.0
        if includePrefission is None:
            includePrefission = True
        if afterEmission is None:
            afterEmission = True
        if afterEmission:
            p = self.post[::2]
        else:
            p = self.pre[::2]
        u = (p.T / np.sum(p ** 2, axis=1) ** 0.5).T
        cAll = []
        cL = []
        cH = []
        eAll = []
        eL = []
        eH = []
        fAll = []
        fL = []
        fH = []
        for i in range(self.NE):
            eL += self.nElab[::2][i]
            cL += self.nlab[::2][i]
            fL += [u[i]] * len(self.nlab[::2][i])
            eAll += self.nElab[::2][i]
            cAll += self.nlab[::2][i]
            fAll += [u[i]] * len(self.nlab[::2][i])
        for i in range(self.NE):
            eH += self.nElab[1::2][i]
            cH += self.nlab[1::2][i]
            fH += [u[i]] * len(self.nlab[1::2][i])
            eAll += self.nElab[1::2][i]
            cAll += self.nlab[1::2][i]
            fAll += [u[i]] * len(self.nlab[1::2][i])
        if includePrefission:
            n = self.preNu[1::2]
            for i in range(self.NE):
                if n[i] > 0:
                    eAll += self.preE[1::2][i]
                    cAll += self.preDir[1::2][i]
                    fAll += [u[i]] * len(self.preDir[1::2][i])
        eL = np.array(eL)
        eH = np.array(eH)
        eAll = np.array(eAll)
        cL = np.array(cL)
        cH = np.array(cH)
        cAll = np.array(cAll)
        fL = np.array(fL)
        fH = np.array(fH)
        fAll = np.array(fAll)
        return (np.sum(cAll[eAll >= Eth] * fAll[eAll >= Eth], axis=1),
                np.sum(cL[eL >= Eth] * fL[eL >= Eth], axis=1),
                np.sum(cH[eH >= Eth] * fH[eH >= Eth], axis=1))

    def nnangles(self, **kw):
        c = self.nlab
        if 'lab' in kw:
            c = self.nlab
        if 'cm' in kw:
            c = self.ncm
        L = []
        H = []
        both = []
        for i in range(self.NE):
            n = self.nu[::2][i]
            for j in range(n):
                for k in range(j + 1, n):
                    v = c[2 * i][j][0] * c[2 * i][k][0] + c[2 * i][j][1] * c[2 * i][k][1] + c[2 * i][j][2] * c[2 * i][k][2]
                    L.append(v)
                    both.append(v)
            m = self.nu[1::2][i]
            for j in range(m):
                for k in range(j + 1, m):
                    v = c[2 * i + 1][j][0] * c[2 * i + 1][k][0] + c[2 * i + 1][j][1] * c[2 * i + 1][k][1] + c[2 * i + 1][j][2] * c[2 * i + 1][k][2]
                    H.append(v)
                    both.append(v)
        return L, H, both

    # gamma rays
    def gammaSpec(self, Egamma, dEgamma, post=True):
        if post:
            k = 1
        else:
            k = 0
        eg = np.array(Egamma)
        de = np.array(dEgamma)
        if np.any(eg < 0.0) or np.any(de < 0.0):
            return
        if not np.shape(eg) == np.shape(de):
            return
        if np.shape(eg) == ():
            eg = np.array([eg])
            de = np.array([de])
        Z = []
        A = []
        for n in range(2 * self.NE):
            log = np.zeros(len(eg)).astype(bool)
            for m, e in enumerate(eg):
                if np.any([g <= e + de[m] and g >= e - de[m] for g in self.gE[n]]):
                    log[m] = True
            if np.all(log):
                Z.append(self.Z[n])
                A.append(self.A[n] - k * self.nu[n])
        return np.column_stack((np.array(Z), np.array(A)))

    def gammaMultiplicity(self, Eth=None, Afragment=None, Zfragment=None, minTime=None, maxTime=None):
        if maxTime is not None and minTime is not None:
            n = 50 * np.abs(np.log10(maxTime) - np.log10(minTime)) + 1
            bins = np.linspace(minTime, maxTime, int(n))
        else:
            bins = np.linspace(1e-8, 100, 501)
        if Eth is None:
            Eth = 0.0
        A = self.A - self.nu
        t = []
        e = []
        if Afragment is not None and Zfragment is not None:
            m = np.logical_and(A == Afragment, self.Z == Zfragment)
            for i in range(2 * self.NE):
                if m[i]:
                    t += self.ages[i]
                    e += self.gE[i]
        else:
            for i in range(2 * self.NE):
                t += self.ages[i]
                e += self.gE[i]
        t = np.array(t)
        e = np.array(e)
        g, edges = np.histogram(t[e >= Eth], bins=bins)
        return 0.5 * (bins[:-1] + bins[1:]), g

    def isomericRatio(self, thresholdTime, A, Z, Jm, Jgs):
        m = np.logical_and(self.A - self.nu == A, self.Z == Z)
        late = 0
        early = 0
        for i in range(2 * self.NE):
            if m[i]:
                a = np.array(self.ages[i])
                if len(a[a >= thresholdTime]) > 0:
                    late += 1
                else:
                    early += 1
        r = late / (late + early)
        if Jm > Jgs:
            return r
        return 1. - r

    def summaryTable(self):
        f = "{}"
        t = []
        t.append(['', 'All Fragments', 'Light Fragments', 'Heavy Fragments', 'Pre-Fission', 'Total'])
        t.append(['A', f.format(np.mean(self.A)), f.format(np.mean(self.A[::2])), f.format(np.mean(self.A[1::2]))])
        t.append(['Z', f.format(np.mean(self.Z)), f.format(np.mean(self.Z[::2])), f.format(np.mean(self.Z[1::2]))])
        t.append(['TXE / U (MeV)', f.format(np.mean(self.U[::2] + self.U[1::2])), f.format(np.mean(self.U[::2])), f.format(np.mean(self.U[1::2]))])
        t.append(['TKE / KE (MeV)', f.format(np.mean(self.KEpre[::2] + self.KEpre[1::2])), f.format(np.mean(self.KEpre[::2])), f.format(np.mean(self.KEpre[1::2]))])
        t.append(['J', f.format(np.mean(self.J)), f.format(np.mean(self.J[::2])), f.format(np.mean(self.J[1::2]))])
        t.append(['parity', f.format(np.mean(self.P)), f.format(np.mean(self.P[::2])), f.format(np.mean(self.P[1::2]))])
        n = self.nu[::2] + self.nu[1::2]
        t.append(['nu', f.format(np.mean(n)), f.format(np.mean(self.nu[::2])), f.format(np.mean(self.nu[1::2])),
                  f.format(np.mean(self.preNu[1::2])), f.format(np.mean(n + self.preNu[1::2]))])
        t.append(['Ecm', f.format(self._mean(self.nEcm)), f.format(self._mean(self.nEcm[::2])), f.format(self._mean(self.nEcm[1::2]))])
        t.append(['Elab', f.format(self._mean(self.nElab)), f.format(self._mean(self.nElab[::2])), f.format(self._mean(self.nElab[1::2])),
                  f.format(self.meanPreFissionNeutronElab()), f.format(self.meanNeutronElab())])
        t.append(['nug', f.format(np.mean(self.nug[::2] + self.nug[1::2])), f.format(np.mean(self.nug[::2])), f.format(np.mean(self.nug[1::2]))])
        t.append(['Eg', f.format(self._mean(self.gE)), f.format(self._mean(self.gE[::2])), f.format(self._mean(self.gE[1::2]))])
        return t



class Yields:
    def getNumberFragments(self):
        return 2 * self.NE

    def getNumberEvents(self):
        return self.NE

    def getA(self):
        return self.A

    def getZ(self):
        return self.Z

    def getN(self):
        return self.A - self.Z

    def getU(self):
        return self.U

    def getJ(self):
        return self.J

    def getP(self):
        return self.P

    def getKE(self):
        return self.KE

    def getTXE(self):
        return self.U[::2] + self.U[1::2]

    def getTKE(self):
        return self.KE[::2] + self.KE[1::2]

    def getFragmentMomentum(self):
        return self.mom

    def getALF(self):
        return self.A[::2]

    def getZLF(self):
        return self.Z[::2]

    def getULF(self):
        return self.U[::2]

    def getJLF(self):
        return self.J[::2]

    def getPLF(self):
        return self.P[::2]

    def getKELF(self):
        return self.KE[::2]

    def getAHF(self):
        return self.A[1::2]

    def getZHF(self):
        return self.Z[1::2]

    def getUHF(self):
        return self.U[1::2]

    def getJHF(self):
        return self.J[1::2]

    def getPHF(self):
        return self.P[1::2]

    def getKEHF(self):
        return self.KE[1::2]

    def summaryTable(self):
        f = "{}"
        t = []
        t.append(['', 'All Fragments', 'Light Fragments', 'Heavy Fragments'])
        t.append(['A', f.format(np.mean(self.A)), f.format(np.mean(self.A[::2])), f.format(np.mean(self.A[1::2]))])
        t.append(['Z', f.format(np.mean(self.Z)), f.format(np.mean(self.Z[::2])), f.format(np.mean(self.Z[1::2]))])
        t.append(['TXE / U (MeV)', f.format(np.mean(self.U[::2] + self.U[1::2])), f.format(np.mean(self.U[::2])), f.format(np.mean(self.U[1::2]))])
        t.append(['TKE / KE (MeV)', f.format(np.mean(self.KE[::2] + self.KE[1::2])), f.format(np.mean(self.KE[::2])), f.format(np.mean(self.KE[1::2]))])
        t.append(['J', f.format(np.mean(self.J)), f.format(np.mean(self.J[::2])), f.format(np.mean(self.J[1::2]))])
        t.append(['parity', f.format(np.mean(self.P)), f.format(np.mean(self.P[::2])), f.format(np.mean(self.P[1::2]))])
        return t
