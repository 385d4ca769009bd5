"""Behaviour-preserving edits: the checks have to stay quiet on them."""
REF = {}


def ref(name, props, *edits):
    REF[name] = (props.split(), edits)


ref("thread-ranges", "C01 C02 C03 C34",
    ("include/fes/detail/thread.hpp", """  // Access index to the vectors required for calculation
  size_t start = 0;
  size_t shift = size / num_threads;

  threads.reserve(num_threads);
""", """  const size_t shift = size / num_threads;
  std::vector<std::pair<size_t, size_t>> ranges;
  ranges.reserve(num_threads);
  for (size_t ix = 0; ix + 1 < num_threads; ++ix) {
    ranges.emplace_back(ix * shift, (ix + 1) * shift);
  }
  ranges.emplace_back((num_threads - 1) * shift, size);
"""),
    ("include/fes/detail/thread.hpp", """  for (size_t ix = 0; ix < num_threads; ++ix) {
    size_t end = (ix == num_threads - 1) ? size : start + shift;
    threads.emplace_back([&callable, start, end, &exception, &mutex]() {
""", """  for (const auto& range : ranges) {
    threads.emplace_back([&callable, range, &exception, &mutex]() {
      const auto start = range.first;
      const auto end = range.second;
"""),
    ("include/fes/detail/thread.hpp", "    start += shift;\n", ""),
    ("include/fes/detail/thread.hpp", """  for (auto&& thread : threads) {
    if (thread.joinable()) {
      thread.join();
    }
  }""", """  std::for_each(threads.begin(), threads.end(), [](std::thread& item) {
    if (item.joinable()) {
      item.join();
    }
  });"""))
ref("axis-helpers", "C17 C18 C19 C20 C21 C22 C25",
    ("src/library/axis.cpp", """  for (size_t ix = 1; ix < n; ++ix) {
    if (!detail::math::is_same(points[ix] - points[ix - 1], increment, 1e-6)) {
      return {};
    }
  }
  return increment;""", """  auto same = [&](size_t ix) {
    return detail::math::is_same(points[ix] - points[ix - 1], increment, 1e-6);
  };
  size_t ix = 1;
  while (ix < n && same(ix)) {
    ++ix;
  }
  return ix < n ? boost::optional<double>() : boost::optional<double>(increment);"""),
    ("src/library/axis.cpp", """  auto i1 = i0;
  if (delta == 0) {
    i1 == length - 1 ? --i0 : ++i1;
  } else {
    if (delta < 0) {
      is_ascending_ ? --i0 : ++i0;
      if (is_circular_) {
        i0 = detail::math::remainder(i0, length);
      }
    } else {
      is_ascending_ ? ++i1 : --i1;
      if (is_circular_) {
        i1 = detail::math::remainder(i1, length);
      }
    }
  }
  if (i0 >= 0 && i0 < length && i1 >= 0 && i1 < length) {""", """  auto i1 = i0;
  auto wrap = [this, length](const int64_t index) -> int64_t {
    if (!is_circular_) {
      return index;
    }
    return index < 0 ? index + length : index >= length ? index - length : index;
  };
  if (delta < 0) {
    i0 = wrap(i0 + (is_ascending_ ? -1 : 1));
  } else if (delta > 0) {
    i1 = wrap(i1 + (is_ascending_ ? 1 : -1));
  } else if (i1 == length - 1) {
    --i0;
  } else {
    ++i1;
  }
  const auto lo = std::min(i0, i1);
  const auto hi = std::max(i0, i1);
  if (lo >= 0 && hi < length) {"""),
    ("include/fes/axis.hpp", """    auto index = static_cast<int64_t>(
        std::round((normalize_coordinate(coordinate) - start_) / step_));
    if (index < 0) {
      return bounded ? 0 : -1;
    }
    if (index >= this->size_) {
      return bounded ? this->size_ - 1 : -1;
    }
    return index;""", """    const auto offset = (normalize_coordinate(coordinate) - start_) / step_;
    const auto index = static_cast<int64_t>(
        offset < 0 ? std::ceil(offset - 0.5) : std::floor(offset + 0.5));
    const auto clipped =
        std::min(std::max(index, int64_t(0)), this->size_ - 1);
    return bounded || clipped == index ? clipped : -1;"""))
ref("math-rewrite", "C17 C18 C19 C21 C22 C29 C30 C31 C04 C05 C06",
    ("include/fes/detail/math.hpp", "  auto result = x % y;\n  return result != 0 && (result ^ y) < 0 ? result + y : result;", "  const auto result = x % y;\n  return (result < 0 && y > 0) || (result > 0 && y < 0) ? result + y : result;"),
    ("include/fes/detail/math.hpp", "  auto result = std::remainder(x, y);\n  if (result < T(0) && y > T(0)) {\n    result += y;\n  }\n  return result;",
     "  const auto result = std::remainder(x, y);\n  const auto shifted = result < T(0) && y > T(0);\n  return shifted ? result + y : result;"),
    ("include/fes/detail/math.hpp", """  add_sample(z11, wx1 * wy1);
  add_sample(z12, wx1 * wy2);
  add_sample(z21, wx2 * wy1);
  add_sample(z22, wx2 * wy2);
""", """  const T values[] = {z11, z12, z21, z22};
  const T weights[] = {wx1 * wy1, wx1 * wy2, wx2 * wy1, wx2 * wy2};
  for (int ix = 0; ix < 4; ++ix) {
    add_sample(values[ix], weights[ix]);
  }
"""),
    ("include/fes/detail/math.hpp", """  switch (static_cast<unsigned int>(quotient) & 3U) {
    case 0U:
      return std::make_tuple(std::sin(angle), std::cos(angle));
    case 1U:
      return std::make_tuple(std::cos(angle), -std::sin(angle));
    case 2U:
      return std::make_tuple(-std::sin(angle), -std::cos(angle));
    default:
      return std::make_tuple(-std::cos(angle), std::sin(angle));
  }
""", """  const auto quadrant = static_cast<unsigned int>(quotient);
  auto s = std::sin(angle);
  auto c = std::cos(angle);
  if (quadrant & 1U) {
    const auto t = s;
    s = c;
    c = -t;
  }
  if (quadrant & 2U) {
    s = -s;
    c = -c;
  }
  return std::make_tuple(s, c);
"""),
    ("include/fes/detail/math.hpp", """  auto ix = sizeof...(args) - 1;
  auto result = coefficients[ix];
  while (ix > 0) {
    ix--;
    result = result * x + coefficients[ix];
  }
  return result;""", """  auto result = T(0);
  for (auto ix = sizeof...(args); ix-- > 0;) {
    result = coefficients[ix] + x * result;
  }
  return result;"""),
    ("include/fes/detail/math.hpp", "  return degrees + (minutes + seconds / T(60)) / T(60);", "  return degrees + minutes / T(60) + seconds / T(3600);"))
ref("cartesian-helpers", "C21 C22 C23 C24 C25 C03",
    ("include/fes/tidal_model/cartesian.hpp", """    for (const auto& item : this->data_) {
      acc->emplace_back(
          item.first,
          std::complex<double>(std::numeric_limits<double>::quiet_NaN(),
                               std::numeric_limits<double>::quiet_NaN()));
    }
    quality""", """    constexpr auto nan = std::numeric_limits<double>::quiet_NaN();
    std::for_each(this->data_.begin(), this->data_.end(), [&](const auto& item) {
      acc->emplace_back(item.first, {nan, nan});
    });
    quality"""),
    ("include/fes/tidal_model/cartesian.hpp", """  quality = (n == 4)   ? Quality::kInterpolated
            : (n == 3) ? Quality::kExtrapolated3
            : (n == 2) ? Quality::kExtrapolated2
            : (n == 1) ? Quality::kExtrapolated1
                       : Quality::kUndefined;
""", """  switch (n) {
    case 4:
      quality = Quality::kInterpolated;
      break;
    case 3:
      quality = Quality::kExtrapolated3;
      break;
    case 2:
      quality = Quality::kExtrapolated2;
      break;
    case 1:
      quality = Quality::kExtrapolated1;
      break;
    default:
      quality = Quality::kUndefined;
  }
"""),
    ("include/fes/detail/grid.hpp", "    return data_[(this->*get_index_)(x, y)];", "    const auto offset = (this->*get_index_)(x, y);\n    return *(data_ + offset);"),
    ("include/fes/tidal_model/cartesian.hpp", "    if (wave.size() != lon_.size() * lat_.size()) {", "    const auto expected = lat_.size() * lon_.size();\n    if (!(wave.size() == expected)) {"))
ref("tide-helpers", "C03 C15 C16",
    ("include/fes/tide.hpp", """    auto it = std::find(disable.begin(), disable.end(), item.first);
    if (it == disable.end()) {
      wave->dynamic(true);
      wave->admittance(false);
    }
""", """    const auto enabled = std::none_of(
        disable.begin(), disable.end(),
        [&item](const Constituent ident) { return ident == item.first; });
    if (enabled) {
      wave->admittance(false);
      wave->dynamic(true);
    }
"""),
    ("include/fes/tide.hpp", """    auto phi = wave->vu();
    auto tide = wave->f() * (wave->tide().real() * std::cos(phi) +
                             wave->tide().imag() * std::sin(phi));
    if (wave->admittance() || wave->dynamic()) {
      wave->type() == Wave::kShortPeriod ? h += tide : h_long_period += tide;
    }
""", """    if (!wave->admittance() && !wave->dynamic()) {
      continue;
    }
    const auto phi = wave->vu();
    const auto& z = wave->tide();
    const auto tide = (z.real() * std::cos(phi) + z.imag() * std::sin(phi)) * wave->f();
    if (wave->type() == Wave::kShortPeriod) {
      h += tide;
    } else {
      h_long_period += tide;
    }
"""),
    ("include/fes/tide.hpp", """  auto h_long_period = tidal_model->tide_type() == fes::kTide
                           ? long_period.lpe_minus_n_waves(angles, latitude)
                           : 0.0;
  wave_table.admittance();
""", """  wave_table.admittance();
  double h_long_period = 0;
  if (tidal_model->tide_type() == fes::kTide) {
    h_long_period = long_period.lpe_minus_n_waves(angles, latitude);
  }
"""))
ref("table-loops", "C11 C12 C13 C33 C34 C35",
    ("src/library/wave/table.cpp", """    auto selected =
        std::find(waves.begin(), waves.end(), constituent) != waves.end();
    table.emplace_back(
        selected ? Table::wave_factory(constituents::parse(constituent))
                 : nullptr);
""", """    if (std::count(waves.begin(), waves.end(), constituent) == 0) {
      table.emplace_back();
      continue;
    }
    table.push_back(Table::wave_factory(constituents::parse(constituent)));
"""),
    ("src/library/wave/table.cpp", """  uint8_t index = 0;
  for (const auto& item : waves_) {
    if (item) {
      wave_index_.emplace_back(index);
    }
    ++index;
  }
""", """  for (size_t index = 0; index < waves_.size(); ++index) {
    if (waves_[index] != nullptr) {
      wave_index_.push_back(static_cast<uint8_t>(index));
    }
  }
"""),
    ("src/library/wave/table.cpp", """  set_tide((*this)[kMu2],
           mu2[0] * z->tide() + mu2[1] * x->tide() + mu2[2] * y->tide());
""", """  auto combine = [&](const std::array<double, 3>& c) {
    return c[2] * y->tide() + c[1] * x->tide() + c[0] * z->tide();
  };
  set_tide((*this)[kMu2], combine(mu2));
"""),
    ("src/library/wave/table.cpp", """  for (auto&& wave : Table()) {
    if (wave->period() < f * (duration / 3600.0)) {
      result.emplace_back(wave->name());
    }
  }
""", """  const auto table = Table();
  const auto limit = f * duration / 3600.0;
  for (size_t ix = 0; ix < table.size(); ++ix) {
    const auto& wave = table[ix];
    if (limit > wave->period()) {
      result.push_back(std::string(wave->name()));
    }
  }
"""),
    ("src/library/wave/table.cpp", """        result(ix, jx) += item->f() * (wave(jx, ix).real() * std::cos(phi) +
                                       wave(jx, ix).imag() * std::sin(phi));
""", """        const auto z = wave(jx, ix);
        result(ix, jx) = item->f() * z.real() * std::cos(phi) +
                         item->f() * z.imag() * std::sin(phi);
"""))
ref("constituent-table", "C10 C11",
    ("src/library/constituent.cpp", """  return std::equal(a.begin(), a.end(), b.begin(), b.end(),
                    [](char a, char b) { return tolower(a) == tolower(b); });
""", """  if (a.length() != b.length()) {
    return false;
  }
  for (size_t ix = 0; ix < a.length(); ++ix) {
    if (toupper(a[ix]) != toupper(b[ix])) {
      return false;
    }
  }
  return true;
"""))
ref("lpe-loops", "C14 C15",
    ("src/library/wave/long_period_equilibrium.cpp", """  if (table[kMtm]->dynamic()) {
    order2_.row(85).fill(0);
    order2_.row(86).fill(0);
    order2_.row(87).fill(0);
  }
""", """  if (table[kMtm]->dynamic()) {
    for (auto ix = 85; ix < 88; ++ix) {
      order2_.row(ix).setZero();
    }
  }
"""),
    ("src/library/wave/long_period_equilibrium.cpp", """    h20 += std::cos(order2_.row(ix).head(5).dot(shpn)) * order2_(ix, 5);
""", """    auto phase = 0.0;
    for (auto jx = 0; jx < 5; ++jx) {
      phase += order2_(ix, jx) * shpn(jx);
    }
    h20 += order2_(ix, 5) * std::cos(phase);
"""),
    ("src/library/wave/long_period_equilibrium.cpp", """  return ((1.0 - 0.609 /* H2 */ + 0.302 /* K2 */) * c20 * h20 +
          (1.0 - 0.291 /* H3 */ + 0.093 /* K3 */) * c30 * h30) *
         100;
""", """  constexpr auto gamma2 = 1.0 - 0.609 /* H2 */ + 0.302 /* K2 */;
  constexpr auto gamma3 = 1.0 - 0.291 /* H3 */ + 0.093 /* K3 */;
  const auto meters = gamma2 * c20 * h20 + gamma3 * c30 * h30;
  return 100 * meters;
"""))
ref("lgp-loops", "C23 C25 C26 C27 C28",
    ("include/fes/tidal_model/lgp.hpp", """  auto min_index = std::numeric_limits<int>::max();
  auto max_index = std::numeric_limits<int>::min();
  std::for_each(codes_.data(), codes_.data() + codes_.size(),
                [&min_index, &max_index](const auto& code) {
                  min_index = std::min(min_index, code);
                  max_index = std::max(max_index, code);
                });
""", """  auto min_index = std::numeric_limits<int>::max();
  auto max_index = std::numeric_limits<int>::min();
  for (Eigen::Index ix = 0; ix < codes_.rows(); ++ix) {
    for (Eigen::Index jx = 0; jx < codes_.cols(); ++jx) {
      const auto code = codes_(ix, jx);
      if (code < min_index) min_index = code;
      if (code > max_index) max_index = code;
    }
  }
"""),
    ("include/fes/tidal_model/lgp.hpp", """                << 2 * (x + y - 0.5) * (x + y - 1),
            -4 * x * (x + y - 1),
            2 * x * (x - 0.5),
            4 * x * y,
            2 * y * (y - 0.5),
            -4 * y * (x + y - 1))
""", """                << (1 - x - y) * (1 - 2 * (x + y)),
            4 * x * (1 - x - y),
            x * (2 * x - 1),
            4 * x * y,
            y * (2 * y - 1),
            4 * y * (1 - x - y))
"""),
    ("include/fes/tidal_model/lgp.hpp", """    for (auto ix = 0; ix < N * 3; ++ix) {
      dot += beta(ix) * static_cast<std::complex<double>>(wave(codes(ix)));
    }
    lgp_acc->emplace_back(item.first, dot);
""", """    double re = 0;
    double im = 0;
    for (auto ix = N * 3 - 1; ix >= 0; --ix) {
      const auto& z = wave(codes(ix));
      re += static_cast<double>(z.real()) * beta(ix);
      im += static_cast<double>(z.imag()) * beta(ix);
    }
    dot = {re, im};
    lgp_acc->emplace_back(item.first, dot);
"""),
    ("include/fes/tidal_model/lgp.hpp", """  lgp_acc->in_cache(point) ? lgp_acc->reset(point)
                           : lgp_acc->set(index_->search(point, max_distance_));
""", """  if (!lgp_acc->in_cache(point)) {
    auto selected = index_->search(point, max_distance_);
    lgp_acc->set(std::move(selected));
  } else {
    lgp_acc->reset(point);
  }
"""))
ref("triangle-cramer", "C29 C26 C27",
    ("src/library/geometry/triangle.cpp", """  const auto dx = point.lon() - t1;
  const auto dy = point.lat() - p1;

  const auto x = (cpy * dx - cty * dy) * jacobien;
  const auto y = (ctx * dy - cpx * dx) * jacobien;

  return {x, y};
""", """  const auto solve = [&](const double a, const double b, const double c,
                         const double d) { return (a * b - c * d) * jacobien; };
  const auto dx = point.lon() - t1;
  const auto dy = point.lat() - p1;
  return std::make_tuple(solve(dx, cpy, dy, cty), solve(dy, ctx, dx, cpx));
"""))
ref("search-loops", "C47 C25 C28",
    ("src/library/mesh/index.cpp", """  for (auto& ix : triangle_indices) {
    auto triangle = build_triangle(ix);
    if (triangle.covered_by(point)) {
      return {true, ix, point, std::move(triangle)};
    }
  }
""", """  for (auto it = triangle_indices.cbegin(); it != triangle_indices.cend();
       ++it) {
    const auto triangle = build_triangle(*it);
    if (!triangle.covered_by(point)) {
      continue;
    }
    return {true, *it, point, triangle};
  }
"""),
    ("src/library/mesh/index.cpp", """  if (min_distance < max_distance) {
    min_distance = std::numeric_limits<double>::max();
""", """  if (max_distance <= min_distance) {
    return result;
  }
  {
    min_distance = std::numeric_limits<double>::max();
"""),
    ("src/library/mesh/index.cpp", "  if (min_triangle_id < 0) {", "  const auto negative = min_triangle_id < 0;\n  if (negative) {"))
ref("astro-rewrite", "C04 C05 C06 C07 C36",
    ("include/fes/angle/astronomic.hpp", """  auto tgn2 = std::tan(n_ * 0.5);
  auto at1 = std::atan(1.01883 * tgn2);
  auto at2 = std::atan(0.64412 * tgn2);
""", """  const auto half = n_ / 2;
  const auto tgn2 = std::tan(half);
  const auto branch = [tgn2](const double k) { return std::atan(k * tgn2); };
  const auto at1 = branch(1.01883);
  const auto at2 = branch(0.64412);
"""),
    ("include/fes/angle/astronomic.hpp", """  t_ = detail::math::radians(t_);
  n_ = detail::math::radians(detail::math::normalize_angle(n_, 0.0));
  s_ = detail::math::radians(detail::math::normalize_angle(s_, 0.0));
  h_ = detail::math::radians(detail::math::normalize_angle(h_, 0.0));
  p_ = detail::math::radians(detail::math::normalize_angle(p_, 0.0));
  p1_ = detail::math::radians(detail::math::normalize_angle(p1_, 0.0));
""", """  t_ = detail::math::radians(t_);
  for (auto* angle : {&p1_, &p_, &h_, &s_, &n_}) {
    *angle = detail::math::radians(detail::math::normalize_angle(*angle, 0.0));
  }
"""),
    ("include/fes/angle/astronomic.hpp", """  nuprim_ = std::atan(std::sin(2.0 * i_) * std::sin(nu_) /
                      (std::sin(2.0 * i_) * std::cos(nu_) + 0.3347));
""", """  const auto sin_2i = std::sin(2.0 * i_);
  nuprim_ = std::atan(std::sin(nu_) * sin_2i /
                      (0.3347 + std::cos(nu_) * sin_2i));
"""),
    ("include/fes/angle/astronomic.hpp", "          (detail::math::pow<2>(std::sin(i_)) * std::sin(2.0 * nu_)) /\n", "          (std::sin(i_) * std::sin(i_) * std::sin(2.0 * nu_)) /\n"))
ref("wave-sum", "C08 C09 C07",
    ("include/fes/wave.hpp", """    v_ = argument_[0] * a.t() + argument_[1] * a.s() + argument_[2] * a.h() +
         argument_[3] * a.p() + argument_[5] * a.p1() +
         argument_[6] * detail::math::pi_2<double>();
    u_ = argument_[7] * a.xi() + argument_[8] * a.nu() +
         argument_[9] * a.nuprim() + argument_[10] * a.nusec();
""", """    const double angles[] = {a.t(), a.s(), a.h(), a.p(), 0.0, a.p1(),
                             detail::math::pi_2<double>(), a.xi(), a.nu(),
                             a.nuprim(), a.nusec()};
    auto sum = [&](size_t first, size_t last) {
      auto result = 0.0;
      for (auto ix = first; ix < last; ++ix) {
        result += argument_[ix] * angles[ix];
      }
      return result;
    };
    v_ = sum(0, 7);
    u_ = sum(7, 11);
"""),
    ("src/library/wave.cpp", """  result[1] = code(argument_[1] + 5);
  result[2] = code(argument_[2] + 5);
  result[3] = code(argument_[3] + 5);
  result[4] = code(argument_[4] + 5);
  result[5] = code(argument_[5] + 5);
""", """  for (size_t ix = 1; ix < result.size(); ++ix) {
    result[ix] = code(argument_[ix] + 5);
  }
"""))
ref("analysis-local", "C32 C33 C13",
    ("src/library/wave/table.cpp", """  H.topRows(w_size) = f.array() * vu.array().cos();
  H.bottomRows(w_size) = f.array() * vu.array().sin();
""", """  for (Eigen::Index jx = 0; jx < h.rows(); ++jx) {
    for (Eigen::Index ix = 0; ix < w_size; ++ix) {
      H(ix, jx) = f(ix, jx) * std::cos(vu(ix, jx));
      H(w_size + ix, jx) = f(ix, jx) * std::sin(vu(ix, jx));
    }
  }
"""),
    ("src/library/wave/table.cpp", """  Eigen::LDLT<Eigen::MatrixXd> ldlt(H * H.transpose());
  Eigen::VectorXd solution = ldlt.solve(H * h);
""", """  const Eigen::MatrixXd normal = H * H.transpose();
  const Eigen::VectorXd rhs = H * h;
  const Eigen::VectorXd solution = normal.ldlt().solve(rhs);
"""))
ref("accelerator-local", "C36 C03 C15",
    ("include/fes/abstract_tidal_model.hpp", """      angle_.first = epoch;
      leap_seconds_ = leap_seconds;
      angle_.second.update(epoch, leap_seconds);
""", """      auto& angles = angle_.second;
      angles.update(epoch, leap_seconds);
      leap_seconds_ = leap_seconds;
      angle_.first = epoch;
"""),
    ("include/fes/abstract_tidal_model.hpp", """    for (const auto& item : this->interpolate(point, quality, acc)) {
      wave_table[std::get<0>(item)]->tide(std::get<1>(item));
    }
""", """    const auto& values = this->interpolate(point, quality, acc);
    for (size_t ix = 0; ix < values.size(); ++ix) {
      auto& wave = wave_table[values[ix].first];
      wave->tide(values[ix].second);
    }
"""))
ref("serialize-local", "C20 C24 C25 C28",
    ("include/fes/detail/serialize.hpp", """    auto constituent = read_data<T>(ss);
    auto map = read_matrix<U, Eigen::Dynamic, 1>(ss);
    data.emplace(constituent, map);
""", """    const auto key = read_data<T>(ss);
    data.insert(std::make_pair(key, read_matrix<U, Eigen::Dynamic, 1>(ss)));
"""),
    ("include/fes/detail/serialize.hpp", """  for (const auto& item : data) {
    write_data(ss, item.first);
    write_matrix<U, Eigen::Dynamic, 1>(ss, item.second);
  }
""", """  std::for_each(data.begin(), data.end(), [&ss](const auto& item) {
    write_data(ss, item.first);
    write_matrix<U, Eigen::Dynamic, 1>(ss, item.second);
  });
"""),
    ("src/library/axis.cpp", """    auto is_circular = detail::serialize::read_data<bool>(ss);
    auto is_ascending = detail::serialize::read_data<bool>(ss);
    auto start = detail::serialize::read_data<double>(ss);
    auto size = detail::serialize::read_data<int64_t>(ss);
    auto step = detail::serialize::read_data<double>(ss);
""", """    bool is_circular{};
    bool is_ascending{};
    double start{};
    int64_t size{};
    double step{};
    ss.read(reinterpret_cast<char*>(&is_circular), sizeof(is_circular));
    ss.read(reinterpret_cast<char*>(&is_ascending), sizeof(is_ascending));
    ss.read(reinterpret_cast<char*>(&start), sizeof(start));
    ss.read(reinterpret_cast<char*>(&size), sizeof(size));
    ss.read(reinterpret_cast<char*>(&step), sizeof(step));
"""))
ref("ecef-terms", "C31",
    ("include/fes/geometry/point.hpp", """  return {a_chi * std::get<1>(sincos_y) * std::get<1>(sincos_x),
          a_chi * std::get<1>(sincos_y) * std::get<0>(sincos_x),
          (a_chi * (1.0 - detail::math::pow<2>(E))) * std::get<0>(sincos_y)};
""", """  const auto radius = std::get<1>(sincos_y) * a_chi;
  const auto z = (1.0 - E * E) * std::get<0>(sincos_y) * a_chi;
  return {radius * std::get<1>(sincos_x), radius * std::get<0>(sincos_x), z};
"""))
