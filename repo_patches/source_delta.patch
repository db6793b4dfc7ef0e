From cea6f7a9dac66e8d8e889b3a868ffb41873beedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:41 +0000
Subject: [PATCH 01/18] fix: reassemble TCP replies independently of how the
 stream is segmented

---
 src/network.rs | 144 +++++++++++++++++++++++--------------------------
 1 file changed, 68 insertions(+), 76 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..04e68f0 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -5,10 +5,10 @@
 extern crate libc;
 extern crate nix;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::Write;
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -19,8 +19,9 @@ use std::time::Duration;
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
 
-use nix::sys::socket::setsockopt;
+use nix::errno::Errno;
 use nix::sys::socket::sockopt::{KeepAlive, TcpKeepCount, TcpKeepIdle, TcpKeepInterval};
+use nix::sys::socket::{recv, setsockopt, MsgFlags};
 
 use serde::de::DeserializeOwned;
 use serde::Serialize;
@@ -52,10 +53,7 @@ pub struct Network {
     udp_timeout: Duration,
     pub command_id: u32,
     pending_response: Vec<u8>,
-    pending_response_offset: usize,
-    pending_response_len: usize,
-    pending_command_id: u32,
-    received_responses: HashMap<u32, Vec<u8>>,
+    received_responses: HashMap<u32, VecDeque<Vec<u8>>>,
     poll_read: Poll,
     events: Events,
     poll_read_udp: Poll,
@@ -87,8 +85,6 @@ impl Network {
 
         let command_id = 0;
         let pending_response: Vec<u8> = Vec::new();
-        let pending_response_offset = 0;
-        let pending_command_id = 0;
         let received_responses = HashMap::new();
         let poll_read = Poll::new()?;
         poll_read
@@ -109,9 +105,6 @@ impl Network {
             udp_timeout,
             command_id,
             pending_response,
-            pending_response_offset,
-            pending_command_id,
-            pending_response_len: 0,
             received_responses,
             poll_read,
             events,
@@ -217,7 +210,10 @@ impl Network {
         T: DeserializeOwned + Debug + 'static,
     {
         self.tcp_read_from_buffer(Duration::from_micros(0));
-        let message = self.received_responses.get(&command_id);
+        let message = self
+            .received_responses
+            .get(&command_id)
+            .and_then(|responses| responses.front());
         if message.is_none() {
             return Ok(false);
         }
@@ -228,7 +224,7 @@ impl Network {
         let result = handler(message);
         match result {
             Ok(_) => {
-                self.received_responses.remove(&command_id);
+                self.take_response(&command_id);
                 Ok(true)
             }
             Err(e) => Err(e),
@@ -240,7 +236,7 @@ impl Network {
         while response_bytes == None {
             {
                 self.tcp_read_from_buffer(Duration::from_millis(10));
-                response_bytes = self.received_responses.remove(command_id);
+                response_bytes = self.take_response(command_id);
             }
             std::thread::yield_now();
         }
@@ -319,71 +315,67 @@ impl Network {
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
-        for event in self.events.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer = [0_u8; 70000];
-                        let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
-                            Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
-                        };
-
-                        if self.pending_response.is_empty() {
-                            let header_mem_size = match self.network_type {
-                                NetworkType::Gripper => size_of::<CommandHeader>(),
-                                NetworkType::Robot => size_of::<RobotCommandHeader>(),
-                            };
-                            if available_bytes >= header_mem_size {
-                                let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
-                                self.pending_response.append(&mut header_bytes.clone());
-                                self.pending_response_offset = header_mem_size as usize;
-                                match self.network_type {
-                                    NetworkType::Gripper => {
-                                        let header: CommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                    NetworkType::Robot => {
-                                        let header: RobotCommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                };
-                            }
-                        }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
-                            let number_of_bytes_to_read = usize::min(
-                                available_bytes,
-                                self.pending_response_len - self.pending_response_offset as usize,
-                            );
-                            let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
-                            self.pending_response.append(&mut response_buffer);
-                            self.pending_response_offset += number_of_bytes_to_read;
-                            if self.pending_response_offset == self.pending_response_len as usize {
-                                self.received_responses
-                                    .insert(self.pending_command_id, self.pending_response.clone());
-                                self.pending_response.clear();
-                                self.pending_response_offset = 0;
-                                self.pending_command_id = 0;
-                                self.pending_response_len = 0;
-                            }
-                        }
-                    }
-                    if event.is_writable() {
-                        eprintln!("There should not be any writable events")
-                    }
+        // The socket is registered edge-triggered, so everything that has arrived has to be read.
+        let mut buffer = [0_u8; 70000];
+        loop {
+            match recv(
+                self.tcp_socket.as_raw_fd(),
+                &mut buffer,
+                MsgFlags::MSG_DONTWAIT,
+            ) {
+                Ok(0) => return,
+                Ok(read_bytes) => {
+                    self.pending_response
+                        .extend_from_slice(&buffer[..read_bytes]);
+                    self.extract_responses();
+                }
+                Err(nix::Error::Sys(Errno::EAGAIN)) => return,
+                Err(nix::Error::Sys(Errno::EINTR)) => {}
+                Err(e) => {
+                    eprintln!("{}", e);
+                    return;
                 }
-                _ => unreachable!(),
             }
         }
     }
+    /// Moves all complete messages from the bytes received so far to the received responses.
+    fn extract_responses(&mut self) {
+        let header_mem_size = match self.network_type {
+            NetworkType::Gripper => size_of::<CommandHeader>(),
+            NetworkType::Robot => size_of::<RobotCommandHeader>(),
+        };
+        while self.pending_response.len() >= header_mem_size {
+            let header_bytes = &self.pending_response[..header_mem_size];
+            let (size, command_id) = match self.network_type {
+                NetworkType::Gripper => {
+                    let header: CommandHeader = deserialize(header_bytes);
+                    (header.size as usize, header.command_id)
+                }
+                NetworkType::Robot => {
+                    let header: RobotCommandHeader = deserialize(header_bytes);
+                    (header.size as usize, header.command_id)
+                }
+            };
+            let size = usize::max(size, header_mem_size);
+            if self.pending_response.len() < size {
+                return;
+            }
+            let response = self.pending_response.drain(..size).collect();
+            self.received_responses
+                .entry(command_id)
+                .or_default()
+                .push_back(response);
+        }
+    }
+    /// Removes the oldest received response with the given command ID.
+    fn take_response(&mut self, command_id: &u32) -> Option<Vec<u8>> {
+        let responses = self.received_responses.get_mut(command_id)?;
+        let response = responses.pop_front();
+        if responses.is_empty() {
+            self.received_responses.remove(command_id);
+        }
+        response
+    }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
-- 
2.43.0


From 6c195d42cb981fafef6547994ac42bb367b3f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:33 +0000
Subject: [PATCH 02/18] fix: report a lost TCP connection as NetworkException
 instead of hanging or panicking

---
 src/gripper.rs                  | 20 ++++++------
 src/model/library_downloader.rs |  2 +-
 src/network.rs                  | 54 +++++++++++++++++++++------------
 src/robot.rs                    | 44 +++++++++++++--------------
 src/robot/robot_impl.rs         | 27 ++++++++---------
 5 files changed, 80 insertions(+), 67 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index 04e68f0..af49297 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -134,10 +134,14 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket.write_all(&encoded_request).map_err(|e| {
+            FrankaException::NetworkException {
+                message: format!("libfranka-rs: TCP send: {}", e),
+            }
+        })?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -147,9 +151,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -167,7 +171,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -209,12 +213,13 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        let connection = self.tcp_read_from_buffer(Duration::from_micros(0));
         let message = self
             .received_responses
             .get(&command_id)
             .and_then(|responses| responses.front());
         if message.is_none() {
+            connection?;
             return Ok(false);
         }
         if message.unwrap().len() != size_of::<T>() {
@@ -231,16 +236,15 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
-        let mut response_bytes: Option<Vec<u8>> = None;
-        while response_bytes == None {
-            {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
-                response_bytes = self.take_response(command_id);
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
+        loop {
+            let connection = self.tcp_read_from_buffer(Duration::from_millis(10));
+            if let Some(response_bytes) = self.take_response(command_id) {
+                return Ok(response_bytes);
             }
+            connection?;
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -311,7 +315,12 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+    /// Reads all bytes that have arrived (waits up to `timeout` for them).
+    ///
+    /// # Error
+    /// * [`NetworkException`](`crate::exception::FrankaException::NetworkException`) - if the
+    /// connection is lost.
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
@@ -323,17 +332,22 @@ impl Network {
                 &mut buffer,
                 MsgFlags::MSG_DONTWAIT,
             ) {
-                Ok(0) => return,
+                Ok(0) => {
+                    return Err(FrankaException::NetworkException {
+                        message: "libfranka-rs: TCP connection closed by the server".to_string(),
+                    });
+                }
                 Ok(read_bytes) => {
                     self.pending_response
                         .extend_from_slice(&buffer[..read_bytes]);
                     self.extract_responses();
                 }
-                Err(nix::Error::Sys(Errno::EAGAIN)) => return,
+                Err(nix::Error::Sys(Errno::EAGAIN)) => return Ok(()),
                 Err(nix::Error::Sys(Errno::EINTR)) => {}
                 Err(e) => {
-                    eprintln!("{}", e);
-                    return;
+                    return Err(FrankaException::NetworkException {
+                        message: format!("libfranka-rs: TCP receive: {}", e),
+                    });
                 }
             }
         }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..52d576e 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -125,9 +125,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -264,8 +264,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -276,8 +276,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -330,9 +330,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -365,7 +363,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -406,9 +404,10 @@ impl RobotControl for RobotImpl {
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        // A lost connection is reported by the next command.
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
@@ -439,7 +438,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From 5d9b74987e3bb5704ab9a8c4c16ce976fbf3c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:35 +0000
Subject: [PATCH 03/18] fix: receive queued UDP states one by one instead of
 discarding or mixing them

---
 src/network.rs | 53 ++++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index af49297..6a0cdd8 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,7 +8,7 @@ extern crate nix;
 use std::collections::{HashMap, VecDeque};
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -263,39 +263,32 @@ impl Network {
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer));
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        loop {
+            match self.udp_socket.recv_from(&mut buffer) {
+                Ok((read_bytes, address)) => {
+                    self.udp_server_address = address;
+                    if read_bytes != size_of::<T>() {
+                        return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                     }
+                    return Ok(deserialize(&buffer));
+                }
+                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
                 }
-                _ => unreachable!(),
+            }
+            self.poll_read_udp
+                .poll(&mut self.events_udp, Some(self.udp_timeout))
+                .unwrap();
+            if self.events_udp.is_empty() {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
             }
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From fe728d2ffd1e431386f20bb2f84061e949fc6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:37 +0000
Subject: [PATCH 04/18] fix: log of a ControlException is in order, free of old
 records and may have size zero

---
 src/robot/logger.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..f918a89 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,8 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
-    ring_size: usize,
     log_size: usize,
 }
 
@@ -59,26 +57,20 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
-            ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
-        if self.ring_size == self.log_size {
+        if self.states.len() > self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
         }
-        self.ring_size = usize::min(self.log_size, self.ring_size + 1);
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+        for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -86,14 +78,8 @@ impl Logger {
                 cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
-            let record = Record {
-                state: self.states.get(index).unwrap().clone(),
-                command,
-            };
-            out.push(record);
+            out.push(Record { state, command });
         }
-        self.ring_front = 0;
-        self.ring_size = 0;
         out
     }
 }
-- 
2.43.0


From 76e88931ee38b8d73e7c582f06a23d8a37d5d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:39 +0000
Subject: [PATCH 05/18] fix: canceling a motion neither panics on a rejected
 stop nor hangs without states

---
 src/robot/robot_impl.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 52d576e..9d1e0c5 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -391,14 +391,12 @@ impl RobotControl for RobotImpl {
         Ok(())
     }
 
-    // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
-        }
+        // The error which led here is the one to report, so errors are ignored from here on.
+        let _ = self.execute_stop_command();
+        while self.receive_robot_state().is_ok()
+            && (self.motion_generator_running() || self.controller_running())
+        {}
 
         // comment from libfranka devs:
         // Ignore Move response.
-- 
2.43.0


From d7ed30a48f4b83dc1e335036e6fe55433586e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 06/18] fix: return NetworkException if the host cannot be
 resolved or no state arrives on connect

---
 src/network.rs          | 5 ++++-
 src/robot/robot_impl.rs | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 6a0cdd8..cada3ac 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -67,7 +67,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("address could not be resolved")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 9d1e0c5..4b5b892 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From d6e7c4dcd620703b93b6993e252bad0bde33d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 07/18] fix: coriolis_from_state uses the total inertia

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From d3dcb396a441dc17810222937918d9b7e98cada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:45 +0000
Subject: [PATCH 08/18] fix: a non-persistent model load removes the copy it
 downloaded and no other

---
 src/model/library_downloader.rs | 2 +-
 src/robot/robot_impl.rs         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..3e8c971 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -37,7 +37,7 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
+            file.write_all(&buffer).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
             Ok(())
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 4b5b892..62db092 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -235,11 +235,11 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        let model = Model::new(model_file, None);
+        if !persistent && !model_already_downloaded {
             remove_file(model_file).expect("Could not delete file");
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From c7e6c5cf5fa4e28f983bb5fd6e96f71960910fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:47 +0000
Subject: [PATCH 09/18] fix: refuse a second motion with a ControlException
 instead of a panic

---
 src/robot/robot_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 62db092..9fef277 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -291,7 +291,10 @@ impl RobotControl for RobotImpl {
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
         if self.motion_generator_running() || self.controller_running() {
-            panic!("libfranka-rs robot: Attempted to start multiple motions!");
+            return Err(FrankaException::ControlException {
+                log: None,
+                error: String::from("libfranka-rs robot: Attempted to start multiple motions!"),
+            });
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From d7f2217c2d2da2c329fa3e2941efbf5ce5a3c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:49 +0000
Subject: [PATCH 10/18] fix: low-pass filters refuse a cutoff frequency of zero
 as documented

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From 3adf9a8b8e85824b27b5c64f4e5d689a4154f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:51 +0000
Subject: [PATCH 11/18] fix: close the bracket when displaying an empty list of
 errors

---
 src/robot/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..f45b9cd 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -56,10 +56,10 @@ impl fmt::Display for FrankaErrors {
                     write!(f, "\"{}\", ", error)?;
                 }
                 None => {
-                    return write!(f, "\"{}\"]", error);
+                    write!(f, "\"{}\"", error)?;
                 }
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 2d7285709af2593a82309b46690472cc6de94a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:52 +0000
Subject: [PATCH 12/18] fix: an aborted stop command is reported as aborted

---
 src/robot.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/robot.rs b/src/robot.rs
index de89a1e..bcaf734 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -542,10 +542,11 @@ impl Robot {
             .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
-            StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
-                Err(create_command_exception(
-                    "libfranka-rs: command rejected: command not possible in current mode",
-                ))
+            StopMoveStatus::CommandNotPossibleRejected => Err(create_command_exception(
+                "libfranka-rs: command rejected: command not possible in current mode",
+            )),
+            StopMoveStatus::Aborted => {
+                Err(create_command_exception("libfranka-rs: command aborted!"))
             }
             StopMoveStatus::EmergencyAborted => Err(create_command_exception(
                 "libfranka-rs: command aborted: User Stop pressed!",
-- 
2.43.0


From edc040b4096096df9632427bd0e4442526d725f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:05 +0000
Subject: [PATCH 13/18] fix: keep the Cartesian rate limiter below the speed
 limit

When the last commanded speed is at the limit and the acceleration is
perpendicular to it, rounding makes the radicand of the distance to the
maximum velocity negative. The resulting NaN was dropped by f64::min and
the limiter allowed the full acceleration, so the commanded speed could
spiral past the limit.
---
 src/robot/rate_limiting.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..3d0357d 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -446,10 +446,11 @@ fn limit_rate_single_cartesian_velocity(
     let unit_commanded_acceleration: Matrix3x1<f64> = commanded_acceleration.normalize();
     let dot_product = unit_commanded_acceleration.dot(last_commanded_velocity);
     let distance_to_max_velocity = -dot_product
-        + f64::sqrt(
+        + f64::sqrt(f64::max(
             f64::powf(dot_product, 2.) - last_commanded_velocity.norm_squared()
                 + f64::powf(max_velocity, 2.),
-        );
+            0.,
+        ));
     let safe_max_acceleration = f64::min(
         (max_jerk / max_acceleration) * distance_to_max_velocity,
         max_acceleration,
-- 
2.43.0


From ad3fd548764ec267944fa88b0dafeab7f94404a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:17 +0000
Subject: [PATCH 14/18] fix: refuse an invalid Cartesian pose before it is
 filtered or limited

With filtering or rate limiting on, a pose that is not a homogeneous
transformation was turned into some rotation and sent to the robot.
---
 src/robot/control_types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/robot/control_types.rs b/src/robot/control_types.rs
index 634be30..76873ac 100644
--- a/src/robot/control_types.rs
+++ b/src/robot/control_types.rs
@@ -345,6 +345,7 @@ impl Finishable for CartesianPose {
         cutoff_frequency: f64,
         limit_rate: bool,
     ) {
+        check_matrix(&self.O_T_EE);
         command.O_T_EE_c = self.O_T_EE;
         if cutoff_frequency < MAX_CUTOFF_FREQUENCY {
             command.O_T_EE_c = cartesian_low_pass_filter(
-- 
2.43.0


From aaae43c544c0b2d1e7dcf82cab3ddae15cd5970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:20 +0000
Subject: [PATCH 15/18] fix: a signal interrupting a wait no longer panics the
 client

Waiting for a reply or a state unwrapped the result of poll, so any signal
handled by the user's program panicked the calling thread, in the middle of a
motion for example. Keep waiting instead, up to the original timeout.
---
 src/network.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index cada3ac..9b759d7 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -14,7 +14,7 @@ use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
 use std::os::unix::io::AsRawFd;
 use std::str::FromStr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
@@ -267,6 +267,7 @@ impl Network {
         &mut self,
     ) -> FrankaResult<T> {
         let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        let deadline = Instant::now() + self.udp_timeout;
         loop {
             match self.udp_socket.recv_from(&mut buffer) {
                 Ok((read_bytes, address)) => {
@@ -283,9 +284,15 @@ impl Network {
                     });
                 }
             }
-            self.poll_read_udp
-                .poll(&mut self.events_udp, Some(self.udp_timeout))
-                .unwrap();
+            let remaining = deadline.saturating_duration_since(Instant::now());
+            match self
+                .poll_read_udp
+                .poll(&mut self.events_udp, Some(remaining))
+            {
+                // a signal handler was executed
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                result => result.unwrap(),
+            }
             if self.events_udp.is_empty() {
                 return Err(FrankaException::NetworkException {
                     message: "libfranka-rs: UDP receive: timeout".to_string(),
@@ -317,9 +324,11 @@ impl Network {
     /// * [`NetworkException`](`crate::exception::FrankaException::NetworkException`) - if the
     /// connection is lost.
     fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
+        match self.poll_read.poll(&mut self.events, Some(timeout)) {
+            // a signal handler was executed
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            result => result.unwrap(),
+        }
         // The socket is registered edge-triggered, so everything that has arrived has to be read.
         let mut buffer = [0_u8; 70000];
         loop {
-- 
2.43.0


From 1b3c6909a995f22fdb7c1a57ed3d3f6fbf0c738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 16/18] fix: convert rotations by 180 degrees correctly

Rotation3::from_matrix starts its iteration at the identity and stops there
when the rotation is a half turn (e.g. the gripper pointing straight down), so
array_to_isometry returned the identity rotation, and the Cartesian low-pass
filter and rate limiter commanded it.
---
 src/robot/rate_limiting.rs | 7 +++++--
 src/utils.rs               | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index 3d0357d..d8a9605 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -356,8 +356,11 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
-        limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+        let mut rotation = Rotation3::from_matrix_unchecked(
+            R * last_commanded_pose.rotation.to_rotation_matrix().matrix(),
+        );
+        rotation.renormalize();
+        limited_commanded_pose.rotation = UnitQuaternion::from_rotation_matrix(&rotation);
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..347cd47 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,11 +9,13 @@ use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
+    let mut rot = Rotation3::from_matrix_unchecked(
+        Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
+    // Rotation3::from_matrix does not find rotations by 180 degrees
+    rot.renormalize();
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From 9402837d2a98dd41cee2502906f36946487d350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 17/18] fix: never leave a truncated model library behind

---
 src/model/library_downloader.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 3e8c971..51f289c 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -10,8 +10,7 @@ use crate::FrankaResult;
 use std::fmt;
 use std::fmt::Display;
 use std::fmt::Formatter;
-use std::fs::File;
-use std::io::Write;
+use std::fs::{remove_file, rename, write};
 use std::mem::size_of;
 use std::path::Path;
 
@@ -34,13 +33,16 @@ impl LibraryDownloader {
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
-            let mut file = File::create(download_path).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            file.write_all(&buffer).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            Ok(())
+            // The copy appears complete or not at all: a truncated one would be used by later loads.
+            let partial_path = download_path.with_extension(format!("so.{}", std::process::id()));
+            write(&partial_path, &buffer)
+                .and_then(|_| rename(&partial_path, download_path))
+                .map_err(|_| {
+                    let _ = remove_file(&partial_path);
+                    ModelException {
+                        message: "Error writing model to disk:".to_string(),
+                    }
+                })
         } else {
             Err(ModelException {
                 message:
-- 
2.43.0


From 8eda5862fc7b04ce0e2455bd904d23a92279327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 18/18] fix: keep the elbow of a Cartesian command in the log
 of a control error

---
 src/robot/logger.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index f918a89..a73c04d 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -71,11 +71,16 @@ impl Logger {
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
         for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
+            let elbow = if cmd.motion.valid_elbow {
+                Some(cmd.motion.elbow_c)
+            } else {
+                None
+            };
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
-                cartesian_pose: CartesianPose::new(cmd.motion.O_T_EE_c, None),
-                cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
+                cartesian_pose: CartesianPose::new(cmd.motion.O_T_EE_c, elbow),
+                cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, elbow),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
             out.push(Record { state, command });
-- 
2.43.0

