"""The metrics of the library with settings that work on small images."""

import numpy as np

FR = {
    "RMSE": {},
    "PSNR": {},
    "SSIM": {},
    "UQI": {},
    "MSSSIM": {"kernel_size": 3, "scale_weights": [0.4, 0.6]},
    "FSIM": {},
    "VIFp": {},
    "VSI": {},
    "GSM": {},
    "MAD": {"block_size": 8, "block_overlap": 0.5},
}
SLICED = ["MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD"]   # 2D metrics
MIN = 44                                                   # edge VIFp needs
NAME = {"MSSSIM": "MS-SSIM"}


# settings that differ from one another in every documented parameter
MORE = {
    "RMSE": [{}],
    "PSNR": [{}],
    "SSIM": [{}, {"gaussian_weights": False, "win_size": 5}, {"alpha": 2, "K1": 0.05},
             {"beta": 2, "K2": 0.2}, {"gamma": 3}, {"sigma": 2.0}, {"sigma": 0.8},
             {"gaussian_weights": False, "win_size": 13}, {"gaussian_weights": False}],
    "UQI": [{}, {"win_size": 5}, {"win_size": 13}],
    "MSSSIM": [{"kernel_size": 3, "scale_weights": [0.4, 0.6]},
               {"kernel_size": 5, "scale_weights": [0.2, 0.8]},
               {"kernel_size": 3, "scale_weights": [0.4, 0.6], "kernel_sigma": 0.7},
               {"kernel_size": 3, "scale_weights": [0.4, 0.6], "k1": 0.1, "k2": 0.2},
               {"kernel_size": 3, "scale_weights": [0.2, 0.3, 0.5]}],
    "FSIM": [{}, {"scales": 3}, {"orientations": 3}, {"min_length": 5}, {"mult": 3},
             {"sigma_f": 0.4}, {"delta_theta": 1.0}, {"k": 3.0}],
    "VIFp": [{}, {"sigma_n_sq": 3.0}],
    "VSI": [{}, {"c1": 1.0}, {"c2": 200.0, "c3": 50.0}, {"alpha": 0.7}, {"beta": 0.1},
            {"omega_0": 0.05}, {"sigma_f": 1.0}, {"sigma_d": 90.0}, {"sigma_c": 0.01}],
    "GSM": [{}, {"c": 100}, {"p": 0.3}],
    "MAD": [{"block_size": 8, "block_overlap": 0.5},
            {"block_size": 16, "block_overlap": 0.75},
            {"block_size": 8, "block_overlap": 0.75},
            {"block_size": 8, "block_overlap": 0.5, "ms_scale": 2},
            {"block_size": 8, "block_overlap": 0.5,
             "csf_function": {"lambda_csf": 0.2, "f_peak": 4.0}},
            {"block_size": 8, "block_overlap": 0.5,
             "luminance_function": {"b": 0.1, "k": 0.03, "gamma": 2.0}},
            {"block_size": 8, "block_overlap": 0.5, "beta_1": 0.9, "beta_2": 0.3},
            {"block_size": 8, "block_overlap": 0.5, "thresh_1": 2.0, "thresh_2": 3.0},
            {"block_size": 8, "block_overlap": 0.5, "orientations_num": 3},
            {"block_size": 8, "block_overlap": 0.5, "weights": [1, 2, 3, 4, 5]},
            {"block_size": 6, "block_overlap": 0.5, "ms_scale": 2, "scales_num": 4,
             "weights": [1, 2, 3, 4]},
            {"block_size": 8, "block_overlap": 0.5, "account_monitor": True,
             "display_function": {"disp_res": 40.0, "view_dis": 20.0}}],
    "SNR": [{"signal_center": (10, 11), "radius": 4, "region_type": "cubic"},
            {"signal_center": (20, 21), "radius": 7, "region_type": "spherical"},
            {"signal_center": (20, 21), "radius": 7},
            {"signal_center": (20, 21), "radius": 7, "region_type": "full"},
            {"signal_center": (20, 21), "radius": 7, "auto_center": True, "iterations": 1},
            {"signal_center": (20, 21), "radius": 7, "auto_center": True, "iterations": 1,
             "lower_threshold": 40, "upper_threshold": 80}],
    "CNR": [{"signal_center": (10, 11), "background_center": (30, 31), "radius": 4,
             "region_type": "cubic"},
            {"signal_center": (20, 21), "background_center": (30, 30), "radius": 7,
             "region_type": "spherical"},
            {"signal_center": (20, 21), "background_center": (30, 30), "radius": 7},
            {"signal_center": (20, 21), "background_center": (30, 30), "radius": 7,
             "region_type": "cubic", "auto_center": True, "iterations": 1}],
}


def make(viqa, name, **kw):
    kw.setdefault("data_range", 255)
    return getattr(viqa, name)(**kw)


def smooth(rng, shape, lo=0, hi=255, dtype=np.uint8):
    """A structured image: waves, a few blocks, some noise."""
    idx = np.meshgrid(*[np.arange(s) for s in shape], indexing="ij")
    a = np.zeros(shape)
    for _ in range(3):
        ph = rng.uniform(0, 6.28)
        k = rng.uniform(0.05, 0.6, len(shape))
        a = a + np.sin(sum(ki * i for ki, i in zip(k, idx)) + ph)
    for _ in range(3):
        sl = tuple(slice(int(p), int(p) + max(2, s // 4))
                   for p, s in zip(rng.integers(0, np.array(shape)), shape))
        a[sl] += rng.uniform(-2, 2)
    a = a + rng.normal(0, 0.05, shape)
    a = (a - a.min()) / (a.max() - a.min())
    return np.floor(lo + a * (hi - lo)).astype(dtype)


def distorted(rng, a, amount=60):
    """Same type and range, with noise and a shifted patch."""
    b = a.astype(np.int64) + rng.integers(-amount, amount + 1, a.shape)
    if rng.random() < 0.5:
        b = np.roll(b, int(rng.integers(1, 4)), axis=0)
    return np.clip(b, 0, 255).astype(a.dtype)


def visible(rng, r, lo=0, hi=255):
    """A low-contrast reference and a distortion that every metric sees (MAD needs one)."""
    x = lo + (hi - lo) * 0.3 + (r.astype(np.float64) - lo) * 0.2
    y = x + rng.uniform(-0.4, 0.4, r.shape) * (hi - lo)
    if r.dtype.kind != "f":
        x, y = np.floor(x), np.floor(y)
    return x.astype(r.dtype), np.clip(y, lo, hi).astype(r.dtype)
