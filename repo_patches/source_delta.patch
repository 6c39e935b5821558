From 62fcf35b9f29110225ed55f93f913f854510ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:18 +0000
Subject: [PATCH 01/21] fix: seed the generator's own engine in the UniformRNG
 constructor

The constructor declared local variables named like the members, so the
member engine kept its default seed and every UniformRNG(s) produced the
same stream whatever s was.
---
 libcgmf/include/rngcgm.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libcgmf/include/rngcgm.h b/libcgmf/include/rngcgm.h
index a50e354..d23eb8c 100644
--- a/libcgmf/include/rngcgm.h
+++ b/libcgmf/include/rngcgm.h
@@ -34,10 +34,7 @@ class UniformRNG{
     std::uniform_real_distribution<> dist;
     std::mt19937 gen;
   public:
-    UniformRNG (int s) : seed(s) {
-      std::uniform_real_distribution<double> dist(0.0,1.0);
-      std::mt19937 gen(seed);
-    }
+    UniformRNG (int s) : seed(s), dist(0.0,1.0), gen(s) { }
     void set_seed (int s) {
       seed = s;
       gen.seed(seed);
-- 
2.43.0


From a67fc5380c8ddcac00d7d4a4c2dd1c7c5d114e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:06 +0000
Subject: [PATCH 02/21] fix: do not print a summary of a run without events

With no events requested the driver passed a null event to the summary,
which dereferenced it.
---
 utils/cgmf/cgmf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..95816f2 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -97,7 +97,7 @@ int main(int argc, char *argv[]) {
       printEventToFile (fp, event, timeCoincidenceWindow);
     }
     fclose(fp);
-    printSummaryEvents (event);
+    if (event != 0) printSummaryEvents (event);
   }
 
   cgmf_cleanup();
-- 
2.43.0


From c94bd824ead68186c890b96a5b3a45baf11668d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:13 +0000
Subject: [PATCH 03/21] fix: check isotope and energy in yields mode too, and
 reject a NaN energy

---
 libcgmf/include/cgmfEvents.h | 2 +-
 libcgmf/src/cgmfEvents.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..fd58d08 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -535,6 +535,8 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
 	
+	checkInput (isotope, eng);
+	
 	lf = new fissionFragmentType [nevents];
 	hf = new fissionFragmentType [nevents];
 	
@@ -589,7 +591,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
-- 
2.43.0


From e88d76decaefbdccf60af8ad4ed863db92a272b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:13 +0000
Subject: [PATCH 04/21] fix: exit with a failure status on errors

---
 libcgmf/src/FissionFragments.cpp | 18 +++++++++---------
 libcgmf/src/Yields.cpp           |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..2a9cb7b 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -243,7 +243,7 @@ void FissionFragments::setOptions(void) {
 	    energySortingOption = "RTA";
 	    anisotropy_flag = true;
 	    if (incidentEnergy==0.0) {
-		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(0);
+		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(-1);
 	    }
 	    break;
 
@@ -259,7 +259,7 @@ void FissionFragments::setOptions(void) {
 	/* PLUTONIUMS */
 	case 94238: // Pu238
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -280,7 +280,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94240: // Pu240
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -300,7 +300,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94242: // Pu242
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -312,7 +312,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94244: // Pu244
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -326,7 +326,7 @@ void FissionFragments::setOptions(void) {
 	/* CALIFORNIUMS */
 	case 98252: // Cf252
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -338,7 +338,7 @@ void FissionFragments::setOptions(void) {
 
 	case 98254: // Cf254
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -351,7 +351,7 @@ void FissionFragments::setOptions(void) {
 	/* NOT SUPPORTED */
 	default:
 	    cerr << "ERROR: Cannot use CGMF (yet) for this isotope and/or incident energy" << endl;
-	    exit(0);
+	    exit(-1);
     }
     return;
 }
@@ -1735,7 +1735,7 @@ void FissionFragments::computeFragmentExcitationEnergy(double TXE, int Zl, int A
 	*Ul = El;
       
     } else {
-	cerr << "sorting option not implemented yet!" << endl; exit(0);
+	cerr << "sorting option not implemented yet!" << endl; exit(-1);
     }
     return;
 }
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..d5eed05 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -173,7 +173,7 @@ void Yields::setYieldParameters(void) {
             cerr << "(n,f) ";
         }
         cerr << id_cn0 << endl;
-        exit(0);
+        exit(-1);
     }
     gaussfit.close();
     return;
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From 8682d97df67bfc4ef37e666b9390e736f931f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:13 +0000
Subject: [PATCH 05/21] fix: stop when the anisotropy or pre-equilibrium
 scattering file is missing

---
 libcgmf/src/FissionFragments.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 2a9cb7b..945d85b 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4677,6 +4677,7 @@ void readAnisotropy (void) {
       fp.open(&str[0]);
    }
 
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
 
    while(getline(fp,line)){
       if(line[0] != '#') break;
@@ -4725,6 +4726,8 @@ void readPreEqAngularDistributionParameters (void) {
     fp.open(&str[0]);
   }
  
+  if (!fp) cgmTerminateCode("pre-equilibrium scattering data file not found");
+
   i=0;
   j=0;
   while (!fp.eof()) { // Loop through file
-- 
2.43.0


From cba13e9f2affeac1ab1a719091ade63a6f5c5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:13 +0000
Subject: [PATCH 06/21] fix: stop when the output file cannot be opened

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 utils/cgmf/cgmf.cpp        | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index fd58d08..7f735af 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -546,6 +546,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	// save fission yields
 	ofstream of;
 	of.open (&outfilename[0]);
+	if (!of) { cerr << "ERROR: Cannot open output file " << outfilename << endl; exit(-1); }
 	//for (int i=0; i<nevents; i++) {
 	//	of << lf[i].Z << " " << lf[i].A << " " << lf[i].KE << " " << lf[i].U << " " << lf[i].spin << " " << lf[i].parity << endl;
 	//	of << hf[i].Z << " " << hf[i].A << " " << hf[i].KE << " " << hf[i].U << " " << hf[i].spin << " " << hf[i].parity << endl;
diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index 95816f2..de1012c 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -86,6 +86,10 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if (fp == NULL) {
+      cerr << "Cannot open output file " << outfilename << endl;
+      exit(-1);
+    }
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
-- 
2.43.0


From 27d7248a312b4e1f0dee87244f754d681e9e57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:34 +0000
Subject: [PATCH 07/21] fix: below the barrier of the second chance no
 pre-fission neutron is emitted

getPrefissionNeutronEnergy returned without sampling the neutrons' energies and
without lowering the excitation energy, but n_pfn stayed positive: the event
listed pre-fission neutrons of undefined energy and the lighter nucleus kept the
whole excitation energy (U-238 at 6.3 MeV: 30% of the events).
---
 libcgmf/src/FissionFragments.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 945d85b..453269d 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5367,8 +5367,14 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     // Determine the maximum pre-fission neutron energy (in c.o.m. frame)
     double eps_max = ncl[n].excitation[0] - barrier[n];
     // Can't sample negative energies -- i.e. we're below the barrier of the 2nd-chance daughter
-    if (eps_max < 0.) preeq_flag = false;
-    if (eps_max < 0.) return;
+    // so the nucleus fissions without emitting any pre-fission neutron
+    if (eps_max < 0.) {
+	preeq_flag = false;
+	n_pfn = 0;
+	delete [] sp1;
+	delete [] sp;
+	return;
+    }
 
     int kfmax = (int) ceil(eps_max/ENERGY_BIN);
 
-- 
2.43.0


From dfa08d4e6000ec386255e7dcf764aeba1f55ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:12 +0000
Subject: [PATCH 08/21] fix: the time window of an event applies to that event

The window was installed only with the first event of a process.
---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 7f735af..1ac477e 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From e1e4fe4c0227baa344d19dcb7353a5a89cf2cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 09/21] fix: buffers filled from the particle history hold a
 full history

---
 libcgmf/src/specmc.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..a30e096 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ];
 
 /*!
  *
@@ -853,17 +853,17 @@ void recordEmittedParticles (void) {
 	int index;
 	MCPoint mc_curr, mc_next;
 	
-  double neutronEnergies [MAX_NUMBER_PARTICLES];
-  double gammaEnergies [MAX_NUMBER_PARTICLES];
-	int gammaTypes [MAX_NUMBER_PARTICLES];
-	double icEnergies [MAX_NUMBER_PARTICLES];
+  double neutronEnergies [MAX_CASCADE];
+  double gammaEnergies [MAX_CASCADE];
+	int gammaTypes [MAX_CASCADE];
+	double icEnergies [MAX_CASCADE];
 	
   int neutronMultiplicity=0;
   int gammaMultiplicity=0;
 	int icMultiplicity=0;
 	
-	std::fill_n (neutronEnergies, MAX_NUMBER_PARTICLES, 0.0);
-	std::fill_n (gammaEnergies, MAX_NUMBER_PARTICLES, 0.0);
+	std::fill_n (neutronEnergies, MAX_CASCADE, 0.0);
+	std::fill_n (gammaEnergies, MAX_CASCADE, 0.0);
 		
   MCPoint mp0 = hs[0].getMCPoint();
   int A = ncl[mp0.getN()].za.getA();
@@ -904,12 +904,13 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	int index;
 	MCPoint mc_curr, mc_next;
 	
-	double cmNeutronEnergies  [MAX_NUMBER_NEUTRONS];
+	// filled from the whole history before the multiplicities are checked
+	double cmNeutronEnergies  [MAX_CASCADE];
 	double neutronEnergies	  [MAX_NUMBER_NEUTRONS];
-	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
+	double cmGammaEnergies    [MAX_CASCADE];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
-	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
+	double timeStamp          [MAX_CASCADE];
+	double icEnergies		      [MAX_CASCADE];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
@@ -917,7 +918,7 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	
 	std::fill_n (neutronEnergies, MAX_NUMBER_NEUTRONS, 0.0);
 	std::fill_n (gammaEnergies, MAX_NUMBER_GAMMAS, 0.0);
-	std::fill_n (timeStamp, MAX_NUMBER_GAMMAS, 0.0);
+	std::fill_n (timeStamp, MAX_CASCADE, 0.0);
 	
   double fragmentMomentum [3] = {};
   for (int i=0; i<3; i++) fragmentMomentum[i]=fe->preFragmentMomentum[i];
-- 
2.43.0


From 9d4159643f55c45ddce1b5de0692cc15b72bd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 10/21] fix: level lookup stops at the last tabulated nucleus

---
 libcgmf/src/ripl2levels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..8e2510f 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
-- 
2.43.0


From 4b3e68e0536f91ff2bfb98b3724722afaa323514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 11/21] fix: interpolation beyond the last energy of the grid
 uses the last interval

---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 453269d..cec4bde 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5064,7 +5064,7 @@ double FissionFragments::spinParameter2(double U, int A, int Z) {
  ******************************************************************************/
 template <int N> int findEnergyIndex(double x0, double (&xarray)[N]) {
 
-    int k0 = -1;
+    int k0 = N - 2; // last interval, for values beyond the grid
     int numberElements = N;
     for (int k=1; k<numberElements; k++) {
 	if (xarray[k]>x0) {
-- 
2.43.0


From 447182649ebb84693f619c75cfbc1f052de99886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 12/21] fix: maximum-entropy integral stays on the energy grid

---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index cec4bde..b676ff8 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -1619,7 +1619,7 @@ void FissionFragments::computeFragmentExcitationEnergy(double TXE, int Zl, int A
 	double El, Eh;
 	double x;
 
-	for (int k=1; k<=NUME; k++){
+	for (int k=1; k<NUME; k++){
 
 	    if (ldEnergyGrid[k]>Uint) {break;} // Integrate only up to Uint
          
-- 
2.43.0


From 95d5bd4a099d513bdd75fd77dcab19d2ba9e3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 13/21] fix: multi-chance probabilities at the first tabulated
 energy

---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index b676ff8..23804cd 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5258,7 +5258,7 @@ void FissionFragments::readMultichanceFissionData(void) {
 	    }
 
 	    // Find the multi-chance fission probabilities at the specified incident particle energy
-	    for (int i=0;i<nenergies;i++) {
+	    for (int i=1;i<nenergies;i++) {
 		if (incidentEnergy<=energies[i]) {
 		    double slope;
 		    for (int j=0;j<=nn;j++) {
-- 
2.43.0


From 1b7ca6244a2da9ecc99d756df55925cf244b19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 14/21] fix: first unsupported chance of fission is the fifth

---
 libcgmf/src/Yields.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index d5eed05..bbff2b7 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -446,7 +446,7 @@ void Yields::setFissioningSystem(int id, double einc) {
     */
 
     // If the N-chance value is above 4th chance or it's not supported, do a simple mass shift (see below)
-    if (idx>4 || !NFsupp_YA[idx]) {idx = 0; a0_cn = id_cn0%1000;}
+    if (idx>3 || !NFsupp_YA[idx]) {idx = 0; a0_cn = id_cn0%1000;}
 
     // Calculate the Gaussian parameters for our fissioning nucleus at an "effective" incident neutron energy einc
     for (unsigned int i=1;i<numModes;i++) {
-- 
2.43.0


From 0cea6b6554fc2da4de75c10ca974801c2622d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 15/21] fix: UTKE() and spinTKE() of CGMFtk use the histories'
 own TKE

_qTKE read it from an undefined name and raised NameError.
---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..0af31fd 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -974,7 +974,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -982,7 +982,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From 68e2fcf5199159939020d1dfdb783abd2ea93722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 16/21] fix: Pnu(Eth) of CGMFtk counts the neutrons of each
 event

It added the per-fragment list of energies to the per-event one, which have
different lengths, and raised ValueError. The pre-fission entry of an event
without pre-fission neutrons is a placeholder and is not counted.
---
 tools/CGMFtk/histories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 0af31fd..b8c55e9 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -826,9 +826,11 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
+			nE = self.nElabLF + self.nElabHF
+			for i in range(self.numberEvents):
+				x = nE[i]
+				if (self.preFissionNu[i]>0):
+					x = x + self.preFissionNeutronElab[i]
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
 			nutot = np.array(nutot)
-- 
2.43.0


From 361ca7fca44b3b84868773e8a242246a7fda6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 17/21] fix: nubarg and nubargtot of CGMFtk accept an array of
 times

The documented numpy array was compared with True, and the truth of that
comparison raised ValueError.
---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index b8c55e9..38d1446 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -628,7 +628,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -682,7 +682,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From afa1ca98b8d989aa29fe630372bb1596a751b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 18/21] fix: nnangles of CGMFtk pairs distinct neutrons only

Every neutron was also paired with itself, adding an angle of zero for each.
---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 38d1446..5198f01 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1322,13 +1322,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From 2bb5a41f3a2c9cfe22d1c28a6c58cff2468440db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 19/21] fix: quantities as a function of A in CGMFtk include
 the heaviest mass

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 5198f01..ea67a0d 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -889,7 +889,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
-- 
2.43.0


From 2abfaf6f74c1d4c598fe06304a5aa486d1300f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 20/21] fix: CGMFtk reads histories whose fragments all emit
 the same number of particles

For such a file, such as a single event with as many neutrons from the light as
from the heavy fragment, the lists became two-dimensional arrays, which could not
be stacked with the others.
---
 tools/CGMFtk/histories.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index ea67a0d..780e083 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -153,6 +153,14 @@ class Histories:
 		self.KEh = self.KEpre[1::2]
 
 
+	def _listArray (self,lists):
+		"""Returns a one-dimensional array whose elements are the given lists"""
+
+		array = np.empty(len(lists),dtype=object)
+		for i in range(len(lists)):
+			array[i] = lists[i]
+		return (array)
+
 	def _readHistoryFileFromCGMF (self,filename,nevents):
 		""" Reads CGMF history file (filename) and returns a list of simulations """
 
@@ -362,15 +370,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._listArray(cmNeutronEnergies)
+		labNeutronEnergies=self._listArray(labNeutronEnergies)
+		cmGammaEnergies=self._listArray(cmGammaEnergies)
+		labGammaEnergies=self._listArray(labGammaEnergies)
+		photonAges=self._listArray(photonAges)
+		cmNeutronDircos=self._listArray(cmNeutronDircos)
+		labNeutronDircos=self._listArray(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._listArray(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._listArray(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
-- 
2.43.0


From 2f44ad954676dc885d447e367f9f76a9238b8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 21/21] fix: gammaSpec of CGMFtk accepts lists of energies and
 resolutions

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 780e083..9ac2dcf 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1372,7 +1372,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0

