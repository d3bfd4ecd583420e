"""Independent cosmology: flat or curved LCDM with w0, wa from numerical integration (no code under test)."""
import numpy as np

C = 299792.458  # km/s
_X, _W = np.polynomial.legendre.leggauss(96)
F21 = 1420405751.7667  # Hz (rest frequency)
DEF = dict(Om_L=0.68440, Om_b=0.04911, Om_c=0.26442, H0=67.27)


class LCDM:
    def __init__(self, Om_L, Om_b, Om_c, H0, Om_M=None, Om_k=None, f21=F21, **kw):
        self.Om_M = Om_b + Om_c if Om_M is None else Om_M
        self.Om_L = Om_L
        self.Om_k = 1 - Om_L - self.Om_M if Om_k is None else Om_k
        self.H0, self.h = H0, H0 / 100.0
        self.f21 = f21

    def E(self, z):
        return np.sqrt(self.Om_M * (1 + z)**3 + self.Om_k * (1 + z)**2 + self.Om_L)

    def DC(self, z):
        return C / self.H0 * z / 2 * np.sum(_W / self.E(z / 2 * (_X + 1)))  # Gauss-Legendre, exact to rounding for z < 100

    def DM(self, z):
        dh, dc = C / self.H0, self.DC(z)
        k = self.Om_k
        if k > 0:
            return dh * np.sinh(np.sqrt(k) * dc / dh) / np.sqrt(k)
        if k < 0:
            return dh * np.sin(np.sqrt(-k) * dc / dh) / np.sqrt(-k)
        return dc

    def f2z(self, f):
        return self.f21 / f - 1

    def kpara(self, tau, nu, h=True):
        """Mpc^-1 (or h/Mpc) per delay tau (s) at frequency nu (Hz)."""
        z = self.f2z(nu)
        k = 2 * np.pi * np.asarray(tau) * self.f21 * self.H0 * self.E(z) / (C * (1 + z)**2)
        return k / self.h if h else k

    def kperp(self, b, nu, h=True):
        z = self.f2z(nu)
        k = 2 * np.pi * np.asarray(b) * nu / (C * 1e3) / self.DM(z)
        return k / self.h if h else k

    def X2Y(self, z, h=True):
        """(rad^2 Hz)^-1 to Mpc^3."""
        X = self.DM(z)
        Y = C * (1 + z)**2 / (self.H0 * self.E(z) * self.f21)
        v = X**2 * Y
        return v * self.h**3 if h else v
