GN = ("Sampled, not exhaustive: seeded random configurations, histories, device errors and, where threads are involved, interleavings. The board and its devices are a model behind open() and ioctl(), written from the kernel's GPIO and I2C interfaces and the data sheets' formats; no hardware is involved.")
prop("G01", "GPIO lines are exclusive, keep their levels and report device errors",
     "A line is requested in the wanted direction, is held until its object is gone, also when that is moved, and no failing call leaves a descriptor behind. Putting a level sets the line, once, for at least the given time; getting a level reads it; waiting for a level returns it if it comes within the timeout and invalid otherwise, on time. A chip, line or level that is invalid, taken or cannot be accessed is reported by an exception or an invalid result and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "every history of opening chips and lines, putting, getting and waiting for levels, moving and releasing lines, with errors of open() and ioctl() at any call",
     "No test covers GPIO.",
     ["src/gpio.h", "src/i/gpio_chip.i.h", "src/x/gpio_chip.x.h", "src/i/gpio_line.i.h", "src/x/gpio_line.x.h"],
     [("chips", "src/x/gpio_chip.x.h: gpio_chip, gpio_chip_info, gpio_line_info"), ("lines", "src/x/gpio_line.x.h: gpio_line_base, gpio_line, gpio_input_line, gpio_output_line")], GN)
prop("G02", "An emulated PWM signal has the set frequency and duty cycle until its end",
     "For every duty cycle that is set, by any thread and as often as one likes, the line soon shows pulses of the frequency given and of the width that the duty cycle stands for, or a constant level at 0 and at 100 and more; a timed setting lasts its time and ends at 0. Destroying the emulator at any time leaves the line low and released, no thread, and takes bounded time. Bad arguments, a taken line or a failing thread are reported by an exception. Frequencies of 2 to 1000 Hz are covered.",
     ["schedules", "inputs", "fault_sequences"],
     "every interleaving of the threads that set duty cycles or destroy the emulator with the emulating thread, for all frequencies and ranges tried, with device errors and late or spurious wake-ups",
     "No test covers GPIO.",
     ["src/i/gpio_pwm_emulator.i.h", "src/x/gpio_pwm_emulator.x.h"],
     [("thread", "src/x/gpio_pwm_emulator.x.h: gpio_pwm_emulator::thread_func"), ("setting", "src/x/gpio_pwm_emulator.x.h: set_duty_cycle"), ("end", "src/x/gpio_pwm_emulator.x.h: ~gpio_pwm_emulator")], GN)
prop("G03", "SMBus transfers reach their own target intact, whoever else uses the bus",
     "Every transfer that reports success went, exactly once and unaltered, to the register and target it was for, with words in the target's byte order, even when several threads use several targets of one bus at the same time; what is read is what that target holds. A transfer that the device refuses, or whose block does not fit, reports failure, with and without a log, and writes nothing past the block given. A bus that cannot be opened is reported by an exception and leaves no descriptor.",
     ["schedules", "inputs", "fault_sequences"],
     "every interleaving of up to 4 threads with up to 3 targets each, every kind of transfer and block size, with errors of any call",
     "No test covers GPIO.",
     ["src/i/gpio_smbus.i.h", "src/x/gpio_smbus.x.h"],
     [("addressing", "src/x/gpio_smbus.x.h: gpio_smbus::ensure_address, safe_ioctl"), ("transfers", "put_nodata, put_byte, put_word, put_block, get_noreg, get_noreg_2, get_byte, get_word, get_block")], GN)
prop("G04", "PWM controllers, motors and servos are programmed with the right timing",
     "For every clock, frequency, range and duty cycle, the timer's prescaler and period give the frequency as closely as whole numbers allow and with a useful resolution, and the pulse has the width that the duty cycle stands for; a motor's direction line shows its direction; a timed setting lasts its time and ends at 0; and a setting works again after an error of the bus. Missing parts are reported by an exception and leave no descriptor. Frequencies from 1 Hz up to the clock are covered.",
     ["inputs", "configurations", "fault_sequences"],
     "all clocks from 1 to 200 MHz, frequencies, ranges and duty cycles tried, in every kind of device, with bus errors",
     "No test covers GPIO.",
     ["src/i/gpio_smbus_pwm.i.h", "src/x/gpio_smbus_pwm.x.h", "src/x/gpio_smbus_motor.x.h", "src/x/gpio_smbus_servo.x.h"],
     [("timer", "src/x/gpio_smbus_pwm.x.h: gpio_smbus_pwm::gpio_smbus_pwm, get_autoreload_from_period"), ("pulses", "src/x/gpio_smbus_pwm.x.h: set_duty_cycle"), ("motor and servo", "gpio_smbus_motor, gpio_smbus_servo")], GN)
prop("G05", "An ultrasonic measurement is right or invalid, and in bounded time",
     "A distance is measured as the time of the echo says, in whole units and within 2 cm, for obstacles within the maximum distance of this very call; without an echo, or with one that comes too late or never ends, the result is that maximum; it is never beyond it, also when lines fail, and every call returns within the time that sound takes for the maximum.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of measurements with different maximum distances, echoes at any time or none, and failing lines",
     "No test covers GPIO.",
     ["src/i/gpio_ultrasonic.i.h", "src/x/gpio_ultrasonic.x.h"],
     [("measuring", "src/x/gpio_ultrasonic.x.h: gpio_ultrasonic::measure_distance")], GN)
prop("G06", "Sensor values are those of the sensor, scaled and calibrated",
     "The motion sensor delivers for every requested channel the value of that channel, less its calibration and in its unit, and zero for others and for channels that cannot be read; calibrating takes the average at rest without overflow, with and without a log; the grayscale sensor delivers its three values. All of this also while another thread uses the same bus.",
     ["inputs", "schedules", "fault_sequences"],
     "all raw values and channel masks tried, histories of calibrating and reading, errors of any transfer, interleavings with another user of the bus",
     "No test covers GPIO.",
     ["src/i/gpio_smbus_motion.i.h", "src/x/gpio_smbus_motion.x.h", "src/x/gpio_smbus_grayscale.x.h"],
     [("motion", "src/x/gpio_smbus_motion.x.h: gpio_smbus_motion::get_measurements, get_values, calibrate"), ("grayscale", "src/x/gpio_smbus_grayscale.x.h: get_values")], GN)
prop("G07", "The motion tracker integrates while running, rests while stopped, always ends",
     "While started, the tracker's speed, direction and position follow the measured acceleration and rotation; while stopped it keeps its position and comes to rest; positions that are set, also while it runs, take effect and are not lost. Starting, stopping and destroying work at any moment of the tracker's thread, in bounded time, and no thread is left. A missing sensor or thread is reported by an exception.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of starting, stopping, adjusting and destroying with the tracker's own thread, including right after construction, with spurious wake-ups and bus errors",
     "No test covers GPIO.",
     ["src/i/gpio_smbus_motion_tracker.i.h", "src/x/gpio_smbus_motion_tracker.x.h"],
     [("thread", "src/x/gpio_smbus_motion_tracker.x.h: gpio_smbus_motion_tracker::thread_func"), ("control", "start, stop, ~gpio_smbus_motion_tracker"), ("integration", "thread_func")], GN + " Accelerations and rotations are constant during a run; positions are compared with an integration within a few percent.")
