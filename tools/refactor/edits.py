# Edits that keep the behaviour: name -> list of (file, old, new)
GA='genetic/mod.rs'; PS='particleswarm/mod.rs'; SC='tools/stopchecker/mod.rs'; LG='tools/logging/mod.rs'; ST='tools/statistics/mod.rs'
VC='particleswarm/velocitycalc/mod.rs'; PV='particleswarm/postvelocitycalc/mod.rs'; PM='particleswarm/postmove/mod.rs'; SE='genetic/selection/mod.rs'; SV='genetic/selection/vec_float.rs'
PB='genetic/pre_birth/vec_float.rs'; PA='genetic/pairing/mod.rs'; MU='genetic/mutation/mod.rs'; XO='genetic/cross/mod.rs'; CR='genetic/creation/vec_float.rs'; TO='tools/mod.rs'; IN='particleswarm/initializing/mod.rs'
R={}
R['ga-helpers']=[
(GA,'''            // Pairing
            let mut children_chromo_list = self.run_pairing();

            // Mutation
            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();

            // May be change new chromosomes vector before birth
            for pre_birth in &mut self.pre_births {
                pre_birth.pre_birth(&self.population, &mut children_mutants);
            }

            // Create new individuals by new chromosomes and add new individuals to population
            self.population.append(children_mutants);

            // Selection
            for selection in &mut self.selections {
                selection.kill(&mut self.population);
            }

            self.population.remove_dead();

            self.population.update_best_worst_individuals();

            self.population.next_iteration();

            for logger in &mut self.loggers {
                logger.next_iteration(&self.population);
            }
        }
''','''            self.next_generation();
        }
'''),
(GA,'''    fn run_pairing(&mut self) -> Vec<T> {''','''    fn next_generation(&mut self) {
        let children = self.run_pairing();
        let mutants = self.mutate(&children);
        drop(children);
        let newborn = self.screen(mutants);
        self.population.append(newborn);

        let mut n = 0;
        while n < self.selections.len() {
            self.selections[n].kill(&mut self.population);
            n += 1;
        }

        self.population.remove_dead();
        self.population.update_best_worst_individuals();
        self.population.next_iteration();
        let population = &self.population;
        self.loggers
            .iter_mut()
            .for_each(|logger| logger.next_iteration(population));
    }

    fn mutate(&mut self, children: &[T]) -> Vec<T> {
        let mut mutants = Vec::new();
        for child in children {
            mutants.push(self.mutation.mutation(child));
        }
        mutants
    }

    fn screen(&mut self, mut chromosomes: Vec<T>) -> Vec<T> {
        for pre_birth in self.pre_births.iter_mut() {
            pre_birth.pre_birth(&self.population, &mut chromosomes);
        }
        chromosomes
    }

    fn run_pairing(&mut self) -> Vec<T> {'''),
(GA,'''        match &self.population.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),
        }
    }
}

impl<'a, T: Clone> Optimizer''','''        self.population.get_best_solution()
    }
}

impl<'a, T: Clone> Optimizer'''),
(GA,'''        self.individuals.retain(|individual| individual.is_alive());''','''        let all = std::mem::replace(&mut self.individuals, Vec::new());
        for individual in all {
            if individual.is_alive() {
                self.individuals.push(individual);
            }
        }'''),
]
R['ga-evaluate-first']=[
(GA,'''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''','''        let mut newborn = Vec::with_capacity(chromosomes_list.len());
        for chromosomes in chromosomes_list {
            let fitness = self.goal.get(&chromosomes);
            newborn.push(Individual {
                chromosomes,
                fitness,
                alive: true,
            });
        }
        self.individuals.append(&mut newborn);'''),
(GA,'''    /// Create new `Individual` struct with `chromosomes` and add it to population.
    fn push(&mut self, chromosomes: T) {
        let fitness = self.goal.get(&chromosomes);
        let new_individual = Individual {
            chromosomes,
            fitness,
            alive: true,
        };

        self.individuals.push(new_individual);
    }

''',''),
(GA,'''        self.population.reset();
        let start_chromo_list = self.creator.create();
''','''        let start_chromo_list = self.creator.create();
        self.population.reset();
'''),
(GA,'''            self.population.update_best_worst_individuals();

            self.population.next_iteration();
''','''            self.population.next_iteration();
            self.population.update_best_worst_individuals();
'''),
(GA,'''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));

        if let Some(ref individual) = best {
            self.best_individual = Some((*individual).clone());
        }

        // Update the worst individual
        let worst = self
            .individuals
            .iter()
            .max_by(|ind_1, ind_2| self.individuals_max_cmp(ind_1, ind_2));

        if let Some(ref individual) = worst {
            self.worst_individual = Some((*individual).clone());
        }''','''        let mut found: Option<(usize, usize)> = None;
        for n in 0..self.individuals.len() {
            found = match found {
                None => Some((n, n)),
                Some((mut best, mut worst)) => {
                    if self.individuals_min_cmp(&self.individuals[n], &self.individuals[best]) == Ordering::Less {
                        best = n;
                    }
                    if self.individuals_max_cmp(&self.individuals[n], &self.individuals[worst]) == Ordering::Greater {
                        worst = n;
                    }
                    Some((best, worst))
                }
            };
        }
        if let Some((best, worst)) = found {
            self.best_individual = Some(self.individuals[best].clone());
            self.worst_individual = Some(self.individuals[worst].clone());
        }'''),
(GA,'''        let mut new_chromosomes: Vec<T> = Vec::with_capacity(pairs.len());

        for pair in pairs {
            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }

            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);
        }

        new_chromosomes''','''        let population = &self.population;
        let cross = &mut self.cross;
        pairs
            .iter()
            .flat_map(|pair| {
                let parents: Vec<&T> = pair.iter().map(|i| &population.individuals[*i].chromosomes).collect();
                cross.cross(&parents)
            })
            .collect()'''),
]
# the last of several equally bad ones instead of the first, and the like
R['ga-ties']=[
(GA,'''            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));''','''            .rev()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));'''),
(GA,'''            .max_by(|ind_1, ind_2| self.individuals_max_cmp(ind_1, ind_2));''','''            .rev()
            .max_by(|ind_1, ind_2| self.individuals_max_cmp(ind_1, ind_2));'''),
(SE,'''        .filter(|n| population[*n].is_alive())
        .collect();''','''        .rev()
        .filter(|n| population[*n].is_alive())
        .collect();'''),
(SE,'''        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }''','''        for n in (0..population.len()).rev() {
            let fitness = population[n].get_fitness();
            if fitness.is_nan() || fitness.is_infinite() {
                population[n].kill();
            }
        }'''),
]
R['selection-rewritten']=[
(SE,'''    let mut kill_list: Vec<usize> = (0..population.len())
        .filter(|n| population[*n].is_alive())
        .collect();

    // NaN is worse than any other fitness
    kill_list.sort_by(|n, m| {
        let (left, right) = (population[*n].get_fitness(), population[*m].get_fitness());
        right
            .partial_cmp(&left)
            .unwrap_or_else(|| right.is_nan().cmp(&left.is_nan()))
    });

    for n in kill_list.into_iter().take(count) {
        population[n].kill();
    }''','''    for _ in 0..count {
        let mut worst: Option<usize> = None;
        for n in 0..population.len() {
            if !population[n].is_alive() {
                continue;
            }
            let replace = match worst {
                None => true,
                Some(m) => {
                    let (a, b) = (population[n].get_fitness(), population[m].get_fitness());
                    !b.is_nan() && (a.is_nan() || a > b)
                }
            };
            if replace {
                worst = Some(n);
            }
        }
        match worst {
            None => return,
            Some(n) => population[n].kill(),
        }
    }'''),
(SV,'''            for (chromo, interval) in individual
                .get_chromosomes()
                .iter()
                .zip(self.intervals.iter())
            {
                if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                    individual.kill();
                    break;
                }
            }''','''            let inside = individual
                .get_chromosomes()
                .iter()
                .zip(self.intervals.iter())
                .all(|(x, (min, max))| x.is_finite() && *x >= *min && *x <= *max);
            if !inside {
                individual.kill();
            }'''),
(PB,'''        for (chromo, interval) in chromosomes.iter().zip(self.intervals.iter()) {
            if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                return false;
            }
        }

        true''','''        (0..chromosomes.len()).all(|n| {
            let (min, max) = self.intervals[n];
            let x = chromosomes[n];
            x.is_finite() && min <= x && x <= max
        })'''),
]
R['operators-other-draws']=[
(MU,'''        let mutate = Uniform::new(0.0, 100.0);
        let mut result = Vec::with_capacity(chromosomes.len());

        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
        }

        result''','''        let mutate = Uniform::new(0.0, 1.0);
        let chosen: Vec<bool> = chromosomes
            .iter()
            .map(|_| mutate.sample(&mut self.random) * 100.0 < self.probability)
            .collect();
        let mut result = chromosomes.clone();
        for (n, _) in chosen.iter().enumerate().filter(|(_, yes)| **yes) {
            result[n] = self.single_mutation.mutation(&chromosomes[n]);
        }

        result'''),
(MU,'''        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f64::from_bits(bit_value)''','''        let size = mem::size_of::<f64>() * 8;
        let mask = (0..self.change_gene_count)
            .map(|_| 1u64 << self.random.gen_range(0, size))
            .fold(0u64, |a, b| a ^ b);
        f64::from_bits(gene.to_bits() ^ mask)'''),
(MU,'use rand::rngs;','use rand::rngs;\nuse rand::Rng;'),
(PA,'''            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);''','''            pairs.push(between.sample_iter(&mut self.random).take(2).collect());'''),
(PA,'''                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
                        best_ind_index = challenger;
                    }

                    // An individual with NaN fitness loses against any other
                    if population[best_ind_index].get_goal().is_nan() {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);''','''                let drawn: Vec<usize> = (0..self.rounds_count + 1)
                    .map(|_| between.sample(&mut self.random))
                    .collect();
                let goal = |n: usize| population[n].get_goal();
                let winner = drawn
                    .into_iter()
                    .fold(None, |best: Option<usize>, n| match best {
                        Some(m) if !(goal(n) < goal(m) || goal(m).is_nan()) => Some(m),
                        _ => Some(n),
                    })
                    .unwrap();
                family.push(winner);'''),
(XO,'''        let mantissa_pos = mantissa_between.sample(&mut self.random);
        let exponent_pos = exponent_between.sample(&mut self.random);

        let mantissa_child''','''        let exponent_pos = exponent_between.sample(&mut self.random);
        let mantissa_pos = mantissa_between.sample(&mut self.random);

        let mantissa_child'''),
(XO,'''        let sign_child = match Uniform::new_inclusive(0i8, 1i8).sample(&mut self.random) {
            0 => sign_1,
            1 => sign_2,
            _ => panic!("Invalid random value in FloatCrossExp"),
        };''','''        let sign_child = if self.random.gen::<bool>() { sign_1 } else { sign_2 };'''),
(XO,'use rand::rngs::ThreadRng;','use rand::rngs::ThreadRng;\nuse rand::Rng;'),
(XO,'''        let gene_count = parent_1.len();
        let mut child = vec![];

        for n in 0..gene_count {
            let mut new_gene = self
                .single_cross
                .cross(vec![&parent_1[n], &parent_2[n]].as_slice());
            child.append(&mut new_gene);
        }
        vec![child]''','''        let single_cross = &mut self.single_cross;
        let child = parent_1
            .iter()
            .enumerate()
            .flat_map(|(n, gene)| single_cross.cross(&[gene, &parent_2[n]]))
            .collect();
        vec![child]'''),
(XO,'''        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(1, size);
        let pos = between.sample(&mut self.random);

        vec![cross_f64(*parents_genes[0], *parents_genes[1], pos)]''','''        let pos = self.random.gen_range(1, 64);
        let low = (1u64 << pos) - 1;
        let (a, b) = (parents_genes[0].to_bits(), parents_genes[1].to_bits());
        vec![f64::from_bits((a & !low) | (b & low))]'''),
(CR,'''            let mut chromo = Vec::with_capacity(chromo_count);
            for interval in &self.intervals {
                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }

            population.push(chromo);''','''            population.push(Vec::with_capacity(chromo_count));
        }
        // one dimension after the other
        for interval in &self.intervals {
            let between = Uniform::new_inclusive(
                interval.0.to_f64().unwrap(),
                interval.1.to_f64().unwrap(),
            );
            for chromo in population.iter_mut() {
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }'''),
]
R['pso-order']=[
(PS,'''                self.swarm.particles[n].set_velocity(new_velocity);

                // Calculate new coordinates
                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(self.swarm.particles[n].velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();
''','''                // Calculate new coordinates
                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n].coordinates.clone();
                for (coord, velocity) in new_coordinates.iter_mut().zip(&new_velocity) {
                    *coord = *coord + *velocity;
                }
'''),
(PS,'''                self.swarm.particles[n].move_to(new_coordinates, new_value);
''','''                let particle = &mut self.swarm.particles[n];
                particle.set_velocity(new_velocity);
                particle.move_to(new_coordinates, new_value);
'''),
(PS,'''            self.swarm.update_best_particle();
            self.swarm.update_worst_particle();
            self.swarm.next_iteration();
''','''            self.swarm.next_iteration();
            self.swarm.update_worst_particle();
            self.swarm.update_best_particle();
'''),
(PS,'''        for mut current_coordinates in &mut coordinates {
            self.post_move
                .iter_mut()
                .for_each(|post_move| post_move.post_move(&mut current_coordinates));
        }

        let particles: Vec<Particle<T>> = coordinates
            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();

        self.swarm.reset();
''','''        self.swarm.reset();
        let mut particles = Vec::with_capacity(coordinates.len());
        for (mut x, v) in coordinates.drain(..).zip(velocity) {
            for post_move in self.post_move.iter_mut() {
                post_move.post_move(&mut x);
            }
            let value = self.goal.get(&x);
            particles.push(Particle::new(x, v, value));
        }
'''),
(PS,'''        match &self.swarm.best_particle {
            None => None,
            Some(particle) => Some((particle.coordinates.clone(), particle.value)),
        }
    }
}

impl<T: Clone> AlgorithmState''','''        self.swarm.get_best_solution()
    }
}

impl<T: Clone> AlgorithmState'''),
(PS,'''                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();''','''                .fold(None, |best: Option<&Particle<T>>, p| match best {
                    Some(q) if compare_floats(p.value, q.value) != Ordering::Less => Some(q),
                    _ => Some(p),
                })
                .unwrap();'''),
]
R['pso-velocity-rules']=[
(VC,'''            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal
                    * r_personal
                    * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                + self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push(velocity_item);''','''            let x = particle.coordinates[i];
            let to_personal = particle.best_personal_coordinates[i] - x;
            let to_global = global_best_solution[i] - x;
            let r_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let personal = r_personal * self.phi_personal * to_personal;
            let global = r_global * self.phi_global * to_global;
            new_velocity.push(particle.velocity[i] + global + personal);'''),
(VC,'''            let velocity_item = self.xi
                * (particle.velocity[i]
                    + self.phi_personal
                        * r_personal
                        * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                    + self.phi_global
                        * r_global
                        * (global_best_solution[i] - particle.coordinates[i]));
            new_velocity.push(velocity_item);''','''            let personal = self.phi_personal * r_personal * (particle.best_personal_coordinates[i] - particle.coordinates[i]);
            let global = self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push((personal + global + particle.velocity[i]) * self.xi);'''),
(VC,'''        let between = Uniform::new_inclusive(0.0, 1.0);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_best_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_best_current = T::from(between.sample(&mut self.random)).unwrap();
            let r_best_personal = T::from(between.sample(&mut self.random)).unwrap();

            let r_worst_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_worst_current = T::from(between.sample(&mut self.random)).unwrap();
            let r_worst_personal = T::from(between.sample(&mut self.random)).unwrap();
''','''        let between = Uniform::new_inclusive(0.0, 1.0);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r: Vec<T> = (0..6).map(|_| T::from(between.sample(&mut self.random)).unwrap()).collect();
            let (r_worst_personal, r_best_personal) = (r[0], r[1]);
            let (r_worst_current, r_best_current) = (r[2], r[3]);
            let (r_worst_global, r_best_global) = (r[4], r[5]);
'''),
(VC,'''                * (particle.velocity[i] + v_best_personal + v_best_current + v_best_global
                    - v_worst_personal
                    - v_worst_current
                    - v_worst_global);''','''                * (particle.velocity[i] - (v_worst_personal + v_worst_current + v_worst_global)
                    + (v_best_personal + v_best_current + v_best_global));'''),
(VC,'''        self.w_max
            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()''','''        let rest = T::from(self.t_max - iteration).unwrap() / T::from(self.t_max).unwrap();
        self.w_min + (self.w_max - self.w_min) * rest'''),
(PV,'''        let current_velocity_abs = velocity
            .iter()
            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
            .sqrt();
        if current_velocity_abs > self.max_velocity {
            let new_velocity = velocity
                .iter()
                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
                .collect();
            new_velocity
        } else {
            velocity
        }''','''        let mut sum = T::zero();
        for v in velocity.iter().rev() {
            sum = sum + v.powi(2);
        }
        let length = sum.sqrt();
        if !(length > self.max_velocity) {
            return velocity;
        }
        velocity.into_iter().map(|v| v / length * self.max_velocity).collect()'''),
(PV,'''                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }''','''                if v.abs() > *v_max {
                    v_max.abs() * v.signum()
                } else {
                    *v
                }'''),
]
R['moves']=[
(PM,'''            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }''','''            let (min, max) = self.intervals[i];
            let x = coordinates[i];
            coordinates[i] = if !x.is_finite() {
                min
            } else {
                x.max(min).min(max)
            };'''),
(PM,'''        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        let teleport = self.probability > rnd;
        if teleport {
            for i in 0..coordinates.len() {
                coordinates[i] = self.random_intervals[i].sample(&mut self.random);
            }
        }''','''        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        if rnd >= self.probability {
            return;
        }
        let random = &mut self.random;
        *coordinates = self.random_intervals.iter().map(|between| between.sample(random)).collect();'''),
(TO,'''        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();

        result''','''        let mut result = Vec::with_capacity(intervals.len());
        for n in 0..intervals.len() {
            let min = intervals[n].0.to_f64().unwrap();
            let max = intervals[n].1.to_f64().unwrap();
            result.push(T::from(Uniform::new_inclusive(min, max).sample(&mut self.random)).unwrap());
        }
        result'''),
]
R['loggers']=[
(LG,'''            let mut result = String::new();
            result = result + &format!("{:<8}", state.get_iteration());

            for x in solution {
                result = result + &format!("  {:<20.*}", self.precision, x);
            }
            result = result + &format!("  {:20.*}", self.precision, goal);

            writeln!(&mut self.writer, "{}", result).unwrap();''','''            write!(&mut self.writer, "{:<8}", state.get_iteration()).unwrap();
            for x in solution {
                write!(&mut self.writer, "  {:<20.*}", self.precision, x).unwrap();
            }
            writeln!(&mut self.writer, "  {:20.*}", self.precision, goal).unwrap();'''),
(LG,'''                let mut result = String::new();
                result = result + "Solution:\\n";

                for x in solution {
                    result = result + &format!("  {:.*}\\n", self.precision, x);
                }

                result = result + "\\n";
                writeln!(&mut self.writer, "{}", result).unwrap();
                writeln!(&mut self.writer, "Goal: {:.*}", self.precision, goal).unwrap();''','''                let lines: Vec<String> = solution
                    .iter()
                    .map(|x| format!("  {:.*}\\n", self.precision, x))
                    .collect();
                let text = format!("Solution:\\n{}\\n\\nGoal: {:.*}\\n", lines.concat(), self.precision, goal);
                self.writer.write_all(text.as_bytes()).unwrap();'''),
(LG,'''        let duration = self.start_time.unwrap().elapsed();
        let time_ms = duration.as_secs() * 1000 + duration.subsec_millis() as u64;

        writeln!(&mut self.writer, "Time elapsed: {} ms", time_ms).unwrap();''','''        let time_ms = time::Instant::now()
            .duration_since(self.start_time.unwrap())
            .as_millis();
        let text = format!("Time elapsed: {} ms\\n", time_ms);
        self.writer.write_all(text.as_bytes()).unwrap();'''),
]
R['stop']=[
(SC,'''        self.stop_checkers
            .iter_mut()
            .fold(false, |stop, checker| checker.can_stop(state) || stop)''','''        let answers: Vec<bool> = self.stop_checkers.iter_mut().map(|c| c.can_stop(state)).collect();
        answers.contains(&true)'''),
(SC,'''        self.stop_checkers
            .iter_mut()
            .fold(true, |stop, checker| checker.can_stop(state) && stop)''','''        let mut all = true;
        for checker in self.stop_checkers.iter_mut().rev() {
            all &= checker.can_stop(state);
        }
        all'''),
(SC,'''            None => false,
            Some((_, goal)) => goal <= self.threshold,''','''            Some((_, goal)) if goal <= self.threshold => true,
            _ => false,'''),
(SC,'''                (state.get_iteration() - self.change_iter) > self.max_iter''','''                state.get_iteration() > self.change_iter + self.max_iter'''),
]
R['statistics']=[
(ST,'''        for i in 0..min_iterations {
            let mut sum_count = 0;
            let mut sum = 0 as GoalValue;
            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }

            if sum_count != 0 {
                result.push(Some(sum / (sum_count as GoalValue)));
            } else {
                result.push(None);
            }
        }''','''        for i in 0..min_iterations {
            let goals: Vec<GoalValue> = (0..run_count)
                .rev()
                .filter_map(|run| self[run][i].as_ref().map(|solution| solution.1))
                .collect();
            result.push(match goals.len() {
                0 => None,
                n => Some(goals.iter().sum::<GoalValue>() / n as GoalValue),
            });
        }'''),
(ST,'''            self.iter().fold(self[0].len(), |min_len, x| {
                if x.len() < min_len {
                    x.len()
                } else {
                    min_len
                }
            })''','''            self.iter().map(|run| run.len()).min().unwrap()'''),
(ST,'''        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);
''','''        let mut sum = 0.0;
        for (_, goal) in success_solutions {
            sum += *goal;
        }
'''),
(ST,'''            acc + (*goal - average_value) * (*goal - average_value)''','''            acc + (average_value - *goal).powi(2)'''),
(ST,'''        if self.0.len() == 0 {
            self.0.push(0);
        }
        let index = self.0.len() - 1;

        self.0[index] += 1;''','''        self.add(1);'''),
(ST,'''        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''','''        self.convergence.append(&mut other.convergence);
        self.results.extend(other.results);'''),
(ST,'''    fn add_run(&mut self) {
        self.results.push(None);
        self.convergence.push(vec![]);''','''    fn add_run(&mut self) {
        self.convergence.push(Vec::with_capacity(16));
        self.results.push(None);'''),
(ST,'''        let count = self.len();
        match count {
            0 => None,
            _ => {
                let success_solutions = self
                    .iter()
                    .filter_map(|x| x.as_ref())
                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))
            }
        }''','''        if self.is_empty() {
            return None;
        }
        let mut successes = 0;
        for result in self.iter() {
            if let Some(solution) = result {
                if predicate(solution) {
                    successes += 1;
                }
            }
        }
        Some(f64::from(successes) / self.len() as f64)'''),
]
# each child is mutated as soon as it is crossed; state kept in other shapes
R['ga-interleaved']=[
(GA,'''            // Pairing
            let mut children_chromo_list = self.run_pairing();

            // Mutation
            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();
''','''            // Pairing, crossing and mutation
            let mut children_mutants: Vec<T> = Vec::new();
            let population = &self.population;
            for family in self.pairing.get_pairs(population) {
                let parents: Vec<&T> = family
                    .iter()
                    .map(|n| population[*n].get_chromosomes())
                    .collect();
                for child in self.cross.cross(&parents) {
                    children_mutants.push(self.mutation.mutation(&child));
                }
            }
'''),
(GA,'''    fn run_pairing(&mut self) -> Vec<T> {
        let pairs: Vec<Vec<usize>> = self.pairing.get_pairs(&self.population);
        let mut new_chromosomes: Vec<T> = Vec::with_capacity(pairs.len());

        for pair in pairs {
            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }

            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);
        }

        new_chromosomes
    }
''',''),
(GA,'''        let mut agents: Vec<&Self::Agent> = Vec::with_capacity(self.len());
        for individual in self.individuals.iter() {
            agents.push(individual);
        }

        agents''','''        self.individuals.iter().collect()'''),
(GA,'''        self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count()''','''        let mut count = 0;
        for individual in &self.individuals {
            if individual.alive {
                count += 1;
            }
        }
        count'''),
(GA,'''        self.individuals.clear();
        self.best_individual = None;
        self.worst_individual = None;
        self.iteration = 0;''','''        self.iteration = 0;
        self.worst_individual.take();
        self.best_individual.take();
        self.individuals = Vec::new();'''),
(GA,'''        while !self.stop_checker.can_stop(&self.population) {''','''        loop {
            if self.stop_checker.can_stop(&self.population) {
                break;
            }
'''),
]
R['pso-reshaped']=[
(PS,'''        while !self.stop_checker.can_stop(&self.swarm) {
            for n in 0..self.swarm.particles.len() {''','''        loop {
            if self.stop_checker.can_stop(&self.swarm) {
                break;
            }

            let count = self.swarm.particles.len();
            for n in 0..count {'''),
(PS,'''                // Correct new velocity
                for post_velocity_calc in &mut self.post_velocity_calc {
                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);
                }
''','''                // Correct new velocity
                new_velocity = self
                    .post_velocity_calc
                    .iter_mut()
                    .fold(new_velocity, |velocity, correction| correction.correct_velocity(velocity));
'''),
(PS,'''                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(self.swarm.particles[n].velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();
''','''                let mut new_coordinates = self.swarm.particles[n].coordinates.clone();
                for (coord, velocity) in new_coordinates.iter_mut().zip(&self.swarm.particles[n].velocity) {
                    *coord = *coord + *velocity;
                }
'''),
(PS,'''        let particles: Vec<Particle<T>> = coordinates
            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();
''','''        let mut particles: Vec<Particle<T>> = Vec::with_capacity(coordinates.len());
        for (point, speed) in coordinates.into_iter().zip(velocity) {
            let value = self.goal.get(&point);
            particles.push(Particle::new(point, speed, value));
        }
'''),
(PS,'''        let mut agents: Vec<&Self::Agent> = Vec::with_capacity(self.len());
        for particle in self.particles.iter() {
            agents.push(particle);
        }

        agents''','''        self.particles.iter().collect()'''),
(PS,'''        match &self.swarm.best_particle {
            None => None,
            Some(particle) => Some((particle.coordinates.clone(), particle.value)),
        }
    }
}

impl<T: Clone> AlgorithmState''','''        self.swarm.get_best_solution()
    }
}

impl<T: Clone> AlgorithmState'''),
]
R['initializers']=[
(IN,'''    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        (0..self.particles_count)
            .map(|_| self.vector_creator.create_vec(&self.intervals))
            .collect()
    }''','''    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        let mut result = Vec::with_capacity(self.particles_count);
        while result.len() < self.particles_count {
            let mut creator = RandomVectorCreator::new();
            result.push(creator.create_vec(&self.intervals));
        }
        result.reverse();
        result
    }'''),
(IN,'''            .map(|_| vec![T::zero(); self.dimension])
            .collect()''','''            .map(|_| (0..self.dimension).map(|_| T::zero()).collect())
            .collect()'''),
(CR,'''                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());''','''                let min = interval.0.to_f64().unwrap();
                let max = interval.1.to_f64().unwrap();
                let mut random = rand::thread_rng();
                chromo.push(G::from(Uniform::from(min..=max).sample(&mut random)).unwrap());'''),
(PM,'''        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        let teleport = self.probability > rnd;
        if teleport {
            for i in 0..coordinates.len() {
                coordinates[i] = self.random_intervals[i].sample(&mut self.random);
            }
        }''','''        let mut target = Vec::with_capacity(coordinates.len());
        for between in self.random_intervals.iter().rev() {
            target.push(between.sample(&mut self.random));
        }
        target.reverse();
        let rnd = Uniform::new(0.0_f64, 1.0_f64).sample(&mut self.random);
        if rnd < self.probability as f64 {
            coordinates.copy_from_slice(&target);
        }'''),
(MU,'''        let mutate = Uniform::new(0.0, 100.0);
        let mut result = Vec::with_capacity(chromosomes.len());

        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
        }

        result''','''        let probability = self.probability;
        let mut result = Vec::new();
        for n in (0..chromosomes.len()).rev() {
            let chance: f64 = rand::thread_rng().gen_range(0.0, 100.0);
            result.push(if chance >= probability {
                chromosomes[n].clone()
            } else {
                self.single_mutation.mutation(&chromosomes[n])
            });
        }
        result.reverse();
        result'''),
(MU,'use rand::rngs;','use rand::rngs;\nuse rand::Rng;'),
(PA,'''            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);''','''            let second = between.sample(&mut self.random);
            let first = between.sample(&mut self.random);
            pairs.insert(0, vec![first, second]);'''),
(SE,'''pub ''','''#[allow(dead_code)]
fn nothing() {}

pub '''),
]
