#pragma once
#include <vector>
#include <string>
#include <algorithm>
#include <cmath>
#include "mc.h"
extern "C" {
#include "calibration.h"
#include "correspondences.h"
#include "epi.h"
#include "image_processing.h"
#include "imgcoord.h"
#include "lsqadj.h"
#include "multimed.h"
#include "orientation.h"
#include "parameters.h"
#include "ray_tracing.h"
#include "segmentation.h"
#include "sortgrid.h"
#include "track.h"
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "trafo.h"
#include "vec_utils.h"
}
#undef norm
enum { nmax_ = nmax };
#undef nmax
