From c70208ed919417ad9f7e06505b2adf2b22e60c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/69] fix: apply two-channel gates to the requested channels
 when the second channel is 0

With channels (h, 0) and h >= 2 the tensor list became [1, h, ...] instead of
[h, 0, ...], so gates acted on channels 1 and h.
---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..20f5794 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # after the first swap channel_vertical is not necessarily at its own position any more (e.g., channel 0 moved)
+                position_of_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[position_of_vertical] = tensor_list[position_of_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From e4505342967f0c237d1e948fbcb75e987cc96bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 02/69] fix: enumerate the Fock basis in standard order
 whatever was looked up before

Once every basis state had been looked up individually, the look-up order was
taken for the basis order, so matrices were built against the wrong indices;
iterating component names a second time also yielded values, not names.
---
 .../nodelist/optical_values_component_names.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..de7ae52 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -210,6 +210,7 @@ class ComponentNames():
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
         self.size_of_basis = self.length_of_fock_state**self.no_of_optical_channels
+        self.basis_in_standard_order = False
         return
 
     def __getitem__(self,component_name: str) -> list:
@@ -229,14 +230,17 @@ class ComponentNames():
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
+        # the dictionary is also filled by individual look-ups, so only its size does not tell whether it holds the
+        # complete basis in standard order
+        if self.basis_in_standard_order and len(self.dict_of_valid_component_names) == self.size_of_basis:
+            return iter(self.dict_of_valid_component_names)
 
         self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
         if self.channel_0_left_in_state_name == True:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state]):optical_state for optical_state in self.list_of_fock_states}
         else: #self.state_least_significant_digit_left == False:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
+        self.basis_in_standard_order = True
 
         return iter(self.dict_of_valid_component_names)
     
@@ -393,6 +397,7 @@ class OpticalValues():
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
         self.size_of_basis = component_names.size_of_basis
+        self.basis_in_standard_order = False
         return
     
     def __getitem__(self,optical_values: Union[list, tuple]) -> str:
@@ -409,9 +414,12 @@ class OpticalValues():
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
+        # the dictionary is also filled by individual look-ups, so only its size does not tell whether it holds the
+        # complete basis in standard order
+        if self.basis_in_standard_order and len(self.dict_of_optical_values) == self.size_of_basis:
             return iter(self.dict_of_optical_values)
         self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
+        self.basis_in_standard_order = True
         return iter(self.dict_of_optical_values)
     
     def __len__(self) -> int:
-- 
2.43.0


From 60c3b0ccd3e5c1a4ab9dae139b9e6fe00b45336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 03/69] fix: keep every state when setting a collection as
 statistical mixture

The random identifiers were checked against the collection being replaced, not
against the mixture being built, so states were overwritten at random.
---
 src/fock_state_circuit/collection_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..069b4e8 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -459,9 +459,9 @@ class CollectionOfStates(Plot):
             initial_state += alphabet[random.randint(0,len(alphabet)-1)]
 
         for state, weight in list_of_tuples_state_weight:
-            # make random identifier which is not yet used in self._collection_of_states.keys()
+            # make random identifier which is not yet used in the mixture
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
-- 
2.43.0


From dbe107229a2b8051deb0222eb4d8c3b5269fe3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 04/69] fix: evaluate every listed node when the node list is
 not ascending

Nodes listed after the highest node index were silently skipped.
---
 src/fock_state_circuit/circuit.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..37c871f 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -328,16 +328,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
             current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From 3c3da5cbbb436a19f8848c3938d25be73a242956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 05/69] fix: classical nodes no longer modify the input
 collection

A classical node that comes first wrote to the states of the caller's collection.
---
 src/fock_state_circuit/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 37c871f..89e9a87 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -378,7 +378,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # case where next node is of type 'classical' *
         #**********************************************
         elif self.node_list[current_node_index].get('node_type') == 'classical':          
-            for state in collection_of_states_input:
+            # work on a copy, the collection which is passed as input should not be modified
+            collection_of_states_output = collection_of_states_input.copy()
+            for state in collection_of_states_output:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
 
@@ -388,7 +390,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     self.node_list[current_node_index]['new_input_values'],
                     self.node_list[current_node_index]['affected_channels'])
                 
-            return self.evaluate_circuit(collection_of_states_input = collection_of_states_input, nodes_to_be_evaluated = remaining_nodes)
+            return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
   
         #**********************************************************************
         # case where next node is of type 'measurement'  *
-- 
2.43.0


From 0c2a13256587e3ef223b9679d310fc894e231e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 06/69] fix: recorded measurement results no longer follow
 later classical changes

The history entry referred to the live list of classical values, so a classical
node that writes in place rewrote earlier measurement results.
---
 src/fock_state_circuit/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 89e9a87..246a95b 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -678,9 +678,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
             try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
+                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob})   
             except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob}]
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
-- 
2.43.0


From 08572c76a29d5fd7fcc3bac5ebe22f4601d7ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 07/69] fix: record one history entry per measurement of
 photon-resolved states

One entry was appended per measured channel, all referring to the live list of
classical values.
---
 .../interference_group.py                                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..3c95a43 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -968,7 +968,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
@@ -1056,7 +1056,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_for_this_outcome[outcome]):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability})  
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From 8cc6c6cc6f02be2b038f6c1c1ac657e1f84024e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 08/69] fix: histogram names and correlations for reversed
 state notation

With channel 0 at the right the digits of multi-digit values were reversed too,
and correlations were taken between the wrong (mirrored) channels.
---
 src/fock_state_circuit/visualization/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..55efbfc 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,10 +195,10 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
+        values_as_strings = [string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state]
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
-        return name
+            values_as_strings = values_as_strings[::-1]
+        return ''.join(values_as_strings)
     
     def _create_list_of_values_from_name(self, name: str) -> list:
         """ Create a list of values from a name string. The input name has to be a 'string of positive integers', where each integer takes
@@ -211,6 +211,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values = values[::-1]
         return values
     
 
-- 
2.43.0


From 3b205e9472fcc0fa8895e9c92a5d80e1e341082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 09/69] fix: controlled shift applies its channel pairs in the
 order given

The matrix node applied the last pair first, unlike the direct variant which is
documented to have the same functionality.
---
 src/fock_state_circuit/nodes/custom_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..1bc0c6c 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -213,7 +213,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         if node_info == None: node_info = {}
         node_info = {
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From b07ce2efb21980d5adf54a20236b005604f8fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 10/69] fix: reduce the channels of a collection that holds no
 states

The new dimensions were only taken over while looping over the states.
---
 src/fock_state_circuit/collection_of_states.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 069b4e8..aa27f86 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -831,13 +831,13 @@ class CollectionOfStates(Plot):
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
 
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
-- 
2.43.0


From 33f2522875c31cedec7b514943bb7deb6540191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 11/69] fix: raise the documented error for invalid shift and
 coupling channels

The exceptions were created but not raised, so for instance identical control and
target channels silently gave a node that is not reversible.
---
 src/fock_state_circuit/nodes/custom_nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1bc0c6c..1c996b1 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if min(shift, target) < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
-- 
2.43.0


From 50928450b3a0d97c1c63d66b00210938cc811183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 12/69] fix: accept rounding in probabilities when the
 threshold is very small

---
 src/fock_state_circuit/state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..4fe39b4 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -397,7 +397,9 @@ class State():
             float(cumulative_probability)
         except:
             return (False,'Invalid state: invalid type for cumulative probability')
-        if cumulative_probability < -self._threshold_probability_for_setting_to_zero or cumulative_probability -1 > self._threshold_probability_for_setting_to_zero:
+        # the fock matrices are calculated in single precision, so also for a very small threshold allow for rounding in the probabilities
+        tolerance = max(self._threshold_probability_for_setting_to_zero, 0.0001)
+        if cumulative_probability < -tolerance or cumulative_probability -1 > tolerance:
             return (False,'Invalid state: invalid value for cumulative probability')
         if type(optical_components) != type(dict([])):
             return (False,'Invalid state"optical components is not a dictionary')
@@ -407,7 +409,7 @@ class State():
             try:
                 amplitude = np.cdouble(o_values['amplitude'])
                 probability = float(o_values['probability'])
-                if probability < -1*self._threshold_probability_for_setting_to_zero or probability > 1+self._threshold_probability_for_setting_to_zero:
+                if probability < -tolerance or probability > 1+tolerance:
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-- 
2.43.0


From 125d15c81c225d4e2d1f466314413e9926e93d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 13/69] fix: spectral, correlation and generic nodes no longer
 modify the input collection

---
 src/fock_state_circuit/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 246a95b..189150f 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -407,7 +407,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
 
                 # perform the measurement
                 # the function perform_measurement_photon_resolved is part of the module 'spectral_nodes.py'
-                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input.copy(), 
                                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                                     classical_channels_to_write_to=classical_channels_to_be_written,
                                                                                     list_of_projections = list_of_projections)
@@ -418,7 +418,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 optical_channels_to_be_read = self.node_list[current_node_index].get('optical_channels_to_be_read')
                 classical_channels_to_be_written = self.node_list[current_node_index].get('classical_channels_to_be_written')  
                 # The function perform_measurement_pr_correlation is part of the module superquantum_nodes.py
-                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input.copy(), 
                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                     classical_channels_to_write_to=classical_channels_to_be_written)
                 return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
@@ -516,7 +516,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             generic_function = self.node_list[current_node_index].get('generic_function')
             generic_function_parameters = self.node_list[current_node_index].get('generic_function_parameters')
             
-            collection_of_states_output = generic_function(collection_of_states_input,generic_function_parameters)
+            # work on a copy, the collection which is passed as input should not be modified
+            collection_of_states_output = generic_function(collection_of_states_input.copy(),generic_function_parameters)
          
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
 
-- 
2.43.0


From 60c1303e346a610f3cd5b9f6831c24165ea8efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 14/69] fix: states with only a pulse width set can be delayed
 and measured

---
 .../collection_of_state_columns.py                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 067dff0..e71d43c 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -96,7 +96,7 @@ class CollectionOfStateColumns():
             # column for every state in the collection.
  
             # check if state has 'photon_resolution' information
-            if 'photon_resolution' in state.auxiliary_information.keys():
+            if 'interference_group_identifier' in state.auxiliary_information.get('photon_resolution', {}).keys():
                 interference_group_id = state.auxiliary_information['photon_resolution']['interference_group_identifier']
                 if interference_group_id not in self.collection_by_column[initial_state].keys():
                     # create a new interference group with a new column for this state
-- 
2.43.0


From 70af545e4d4f966ffe42d4357c29699e942e0bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 15/69] fix: copies of a state no longer share recorded
 measurement values

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 4fe39b4..128d456 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -431,7 +431,7 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : [{k:(v.copy() if isinstance(v,list) else v) for k,v in m_result.items()} for m_result in self.state['measurement_results']]
                             }
         auxiliary_information = self.state.get('auxiliary_information', None)
 
-- 
2.43.0


From 4b75fb9124a50a529adeb9c68294a5466501f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 16/69] fix: states of a Popescu-Rohrlich pair no longer share
 one list

---
 .../popescu_rohrlich_correlations.py                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..6cf80dc 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -254,7 +254,7 @@ def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_corre
         new_state.optical_components = new_optical_components
         superentanglement_info = {  'superentanglement': identifier,
                                     'configuration' : configuration,
-                                    'quantumness_indicator' : quantumness_indicators,
+                                    'quantumness_indicator' : quantumness_indicators.copy(),
                                     'initial_state_name_for_output' : state.initial_state,
                                     'original_cumulative_probability': state.cumulative_probability
                                 }
-- 
2.43.0


From a75f05dda9a223b536c25f959dd6857495ec012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 17/69] fix: states split by a reduction or pair measurement no
 longer share history

---
 src/fock_state_circuit/collection_of_states.py               | 5 +++--
 .../popescu_rohrlich_correlations.py                         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index aa27f86..22fa9a0 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -820,12 +820,13 @@ class CollectionOfStates(Plot):
                     new_optical_components[component] = {'amplitude': new_amplitude, 'probability': np.abs(new_amplitude)**2}
                 
                 new_classical_values = [old_state['classical_channel_values'][index] for index in classical_channels_to_keep]
+                copied_state = old_state.copy() # states resulting from the same original should not share data
                 new_state_as_a_dict = {   'initial_state' : old_state['initial_state'],
                     'cumulative_probability' :  old_state['cumulative_probability'] *cumulative_probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : new_classical_values,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copied_state['measurement_results'],
+                    'auxiliary_information' : copied_state['auxiliary_information']
                     }
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6cf80dc..95fd872 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -379,7 +379,7 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             # prepare the attribute 'measurement_results' for the collapsed state. If there are already
             # measurement results in the input state copy these to the new collapsed state
             if state.measurement_results and state.measurement_results is not None:
-                measurement_results = [previous_values for previous_values in state.measurement_results]   
+                measurement_results = [previous_values for previous_values in new_state.measurement_results]   
                 measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']})   
             else:
                 measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']}]
-- 
2.43.0


From ce36aaf65ee0682232650ba5fbebde9b670c8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 18/69] fix: exponential of Hamiltonians with a large norm
 converges

---
 .../quantum_operators.py                               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index cc3c9b5..8773e16 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -179,12 +179,18 @@ class QuantumOperator:
     
     def _exponentiaze(self) -> list[np.ndarray]:
         """ Create the Taylor expansion of the exponent up to power 'power_for_exponent_taylor_expansion'. 
+            The expansion only converges for matrices with a limited norm. For larger matrices we use exp(H) = exp(H/2**k)**(2**k).
         """
         transition_matrices_list = []
         for matrix in self._matrices:
-            transition_matrix = np.identity(n=matrix.shape[0], dtype=np.csingle)
+            norm = np.linalg.norm(matrix, ord=1)
+            number_of_squarings = max(0, math.ceil(math.log2(norm))) if norm > 1 else 0
+            scaled_matrix = matrix.astype(np.cdouble) / 2**number_of_squarings
+            transition_matrix = np.identity(n=matrix.shape[0], dtype=np.cdouble)
             for n in range(1,self.power_for_exponent_taylor_expansion):
-                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(matrix,n)
+                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(scaled_matrix,n)
+            for _ in range(number_of_squarings):
+                transition_matrix = np.matmul(transition_matrix, transition_matrix)
             transition_matrices_list.append(transition_matrix)
         return transition_matrices_list 
     
-- 
2.43.0


From 15d61267f9cec3f4e101492c5bb1309a0cf14517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 19/69] fix: states no longer share the list returned by a
 classical function

---
 src/fock_state_circuit/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 189150f..f97e5dd 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -385,10 +385,11 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 classical_function = self.node_list[current_node_index].get('function')
 
                 # apply the function to the classical channels for every state in the collection
-                state.classical_channel_values = classical_function(
+                # (make a list per state, the function could return the list of input values stored in the node)
+                state.classical_channel_values = list(classical_function(
                     state.classical_channel_values,
                     self.node_list[current_node_index]['new_input_values'],
-                    self.node_list[current_node_index]['affected_channels'])
+                    self.node_list[current_node_index]['affected_channels']))
                 
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
   
-- 
2.43.0


From d08ade2885c8a174a1797ac0284fc29587a5c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 20/69] fix: allow for the rounding of rare measurement
 outcomes in state validity

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 128d456..2220c59 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -398,7 +398,7 @@ class State():
         except:
             return (False,'Invalid state: invalid type for cumulative probability')
         # the fock matrices are calculated in single precision, so also for a very small threshold allow for rounding in the probabilities
-        tolerance = max(self._threshold_probability_for_setting_to_zero, 0.0001)
+        tolerance = max(self._threshold_probability_for_setting_to_zero, 0.001)
         if cumulative_probability < -tolerance or cumulative_probability -1 > tolerance:
             return (False,'Invalid state: invalid value for cumulative probability')
         if type(optical_components) != type(dict([])):
-- 
2.43.0


From 807dae8297eb91c7ec2c72e055aa2fd7bbed52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 21/69] fix: names of the wrong length are not valid component
 names

---
 .../nodes/nodelist/optical_values_component_names.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index de7ae52..a41b395 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -221,8 +221,10 @@ class ComponentNames():
             component_name_as_integer_tuple = tuple( int(component_name[a:a+self.digits_per_channel]) for a in range(0,len(component_name),self.digits_per_channel))
             if not self.channel_0_left_in_state_name:
                 component_name_as_integer_tuple = tuple(reversed(component_name_as_integer_tuple))
-            self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
-            self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
+            # only names of the right length are stored, otherwise values would later be translated to an invalid name
+            if len(component_name) == self.digits_per_channel * self.no_of_optical_channels:
+                self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
+                self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
             return list(component_name_as_integer_tuple)
         
     def _values_from_index(self, index: int) -> list:
@@ -246,6 +248,8 @@ class ComponentNames():
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
+        if len(key) != self.digits_per_channel * self.no_of_optical_channels:
+            return False
         values = self.__getitem__(key)
         return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
     
-- 
2.43.0


From ca603be7daa9364d0464d2a3bb43b400ba098146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 22/69] fix: resized collections keep the threshold of their
 circuit when copied

---
 src/fock_state_circuit/collection_of_states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 22fa9a0..abe7230 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -777,7 +777,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -867,7 +868,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1007,7 +1009,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
-- 
2.43.0


From 2546f48eedc63f66df5d724f12ad3ca45cfcc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 23/69] fix: reduce collections with components of amplitude
 zero

---
 src/fock_state_circuit/collection_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index abe7230..2c3df4c 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -815,6 +815,8 @@ class CollectionOfStates(Plot):
                 cumulative_probability = 0
                 for amplitude_probability in new_optical_components.values():
                     cumulative_probability += np.abs(amplitude_probability['amplitude'])**2
+                if cumulative_probability == 0: # components can be present with amplitude 0, for instance after clean_up()
+                    continue
                 scale_factor = math.sqrt((1/cumulative_probability))
                 for component in new_optical_components.keys():
                     new_amplitude = new_optical_components[component]['amplitude'] * scale_factor
-- 
2.43.0


From 6e1768b10df0f050431dbbc79e288c98e73938bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 24/69] fix: measurement has no outcome for components of
 amplitude zero

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index f97e5dd..9430ed1 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -665,6 +665,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             old_probabilities = old_amplitudes.real**2 + old_amplitudes.imag**2
             tot_amp = np.sum(old_amplitudes )
             tot_prob = np.sum(old_probabilities )
+            if tot_prob == 0: # components can be present with amplitude 0, this outcome never occurs
+                continue
             # renormalized to create new amplitudes and probabilities
             new_amps = old_amplitudes/np.sqrt(tot_prob)
             new_probs = new_amps.real**2 + new_amps.imag**2
-- 
2.43.0


From 665cdde702016f0db020643b01b2a69d95b02ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 25/69] fix: states of an extended collection no longer share
 amplitudes and history

---
 src/fock_state_circuit/collection_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 2c3df4c..f5581bd 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -1035,7 +1035,8 @@ class CollectionOfStates(Plot):
 
         # for each existing state create a statistical mixture for possible values in new channels
         for probability, values in extra_channel_values.values():
-            for old_state in self._collection_of_states.values():
+            for original_state in self._collection_of_states.values():
+                old_state = original_state.copy() # states resulting from the same original should not share data
                 optical_components = old_state['optical_components']
                 new_optical_components = dict([])
                 for component_name, amplitude_probability in optical_components.items():
-- 
2.43.0


From 98c3fba5f8a8a386a8638875f923a4ecb882122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 26/69] fix: clean_up removes components with low probability
 as documented

---
 src/fock_state_circuit/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 2220c59..8f0c860 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -581,6 +581,10 @@ class State():
             else:
                 total_probability += np.abs(amplitude_probability['amplitude'])**2
 
+        # remove the components with too low probability
+        for component in [c for c, amplitude_probability in oc.items() if amplitude_probability['probability'] == 0]:
+            del oc[component]
+
         if np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
             scale_factor = 1/math.sqrt(total_probability)
             new_oc = dict([])
-- 
2.43.0


From b6519148e92899a07a718c3aff967ae6df2e7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 27/69] fix: rounding in a sum of probabilities is not an
 invalid cumulative probability

---
 src/fock_state_circuit/state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 8f0c860..f275566 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -191,7 +191,9 @@ class State():
        
     @cumulative_probability.setter
     def cumulative_probability(self, probability: float):
-        if not 0 <= probability <= 1:
+        # same tolerance for rounding as in _check_valid_state()
+        tolerance = max(self._threshold_probability_for_setting_to_zero, 0.001)
+        if not -tolerance <= probability <= 1 + tolerance:
             print(probability)
             raise Exception('Invalid value for probability')
         self.state['cumulative_probability'] = probability  
-- 
2.43.0


From b58d817b94dacfdcd03670b42ca3d07de3879fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 28/69] fix: apply a list of Hamiltonians in the documented
 order

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py        | 4 ++--
 .../quantum_operator_functionality/quantum_operators.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..5e613e4 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -103,7 +103,7 @@ class QuantumOperatorNodes(NodeList):
             ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
             ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-            operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+            operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
 
             operator_generic_wave_plate = QuantumOperator(operator_generic_wave_plate_list,
                                                           length_of_fock_state=collection._length_of_fock_state)
@@ -185,7 +185,7 @@ class QuantumOperatorNodes(NodeList):
                 ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
                 ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-                operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+                operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
         
 
                 operator_generic_wave_plate = QuantumOperator( operator_generic_wave_plate_list, 
diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index 8773e16..ee05cca 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -200,7 +200,7 @@ class QuantumOperator:
         """
         transition_matrix = np.identity(n=self._transition_matrices_list[0].shape[0], dtype=np.csingle)
         for matrix in self._transition_matrices_list:
-            transition_matrix = np.matmul(matrix,transition_matrix)
+            transition_matrix = np.matmul(transition_matrix,matrix)
         return transition_matrix
 
     def apply_operator_to_collection(self,input_collection: CollectionOfStates, optical_channels: list[int]) -> CollectionOfStates: # type: ignore
-- 
2.43.0


From 793b110ecb77674e423c9d5a7740280530efb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 29/69] fix: each Hamiltonian in a list acts on its own
 operator channels

---
 .../quantum_operator_functionality/quantum_operators.py    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index ee05cca..21f4b34 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -99,11 +99,11 @@ class QuantumOperator:
             We create the class as frozen, so as immutable. We want to run calculations at initialization to ensure we do the calculation only once. Because this is a 
             'frozen' dataclass we need to use settattr to be able to modify the arguments (so it looks more complex than it actually is)
         """
-        object.__setattr__(self, 'operator_channels', self.hamiltonians[0].operator_channels)
+        object.__setattr__(self, 'operator_channels', [channel for hamiltonian in self.hamiltonians for channel in hamiltonian.operator_channels])
         lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis(self.operator_channels, self.length_of_fock_state)
         object.__setattr__(self, '_lim_basis_to_values', lim_basis_to_values)
         object.__setattr__(self, '_lim_basis_to_index', lim_basis_to_index)
-        matrices = [self._generate_limited_matrix(hamiltonian.operators, self.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
+        matrices = [self._generate_limited_matrix(hamiltonian.operators, hamiltonian.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
         object.__setattr__(self, '_matrices', matrices)
         object.__setattr__(self, '_transition_matrices_list', self._exponentiaze())
         object.__setattr__(self, '_transition_matrix', self._combine_operators())
@@ -152,8 +152,7 @@ class QuantumOperator:
         Returns:
             ndarray: Matrix representing the effect of the operator.
         """
-        number_of_channels = len(set(operator_channels))
-        matrix_size = length_of_fock_state**number_of_channels
+        matrix_size = len(self._lim_basis_to_values)
         matrix = np.zeros((matrix_size,matrix_size), np.csingle)
         for index, values in self._lim_basis_to_values.items():
             for operator in operators:
-- 
2.43.0


From 5c28e8e506589f7e84eeb3f948582daeeb1c2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 30/69] fix: bridge to a circuit without classical channels

---
 src/fock_state_circuit/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 9430ed1..2db38ac 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -566,6 +566,11 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 collection_of_states_reshaped.reduce(optical_channels_to_keep=optical_to_keep)
             if new_classical > self._no_of_classical_channels:
                 collection_of_states_reshaped.extend(extra_classical_channels=(new_classical - self._no_of_classical_channels))
+            elif new_classical == 0: # 'reduce' takes an empty list as 'keep all channels'
+                for state in collection_of_states_reshaped:
+                    state._no_of_classical_channels = 0
+                    state.classical_channel_values = []
+                collection_of_states_reshaped._no_of_classical_channels = 0
             elif new_classical < self._no_of_classical_channels:
                 classical_to_keep = [channel for channel in range(new_classical)]
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
-- 
2.43.0


From 7b944a09af44ea154ae53a122cc953c4f18ba975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 31/69] fix: bridge between circuits with a different notation
 of component names

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 2db38ac..e2a2026 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -575,6 +575,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 classical_to_keep = [channel for channel in range(new_classical)]
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
 
+            # component names are rewritten in the notation of the next circuit when adjusting the length
+            collection_of_states_reshaped._channel_0_left_in_state_name = next_fock_state_circuit._channel_0_left_in_state_name
             collection_of_states_reshaped.adjust_length_of_fock_state(new_length)
             collection_of_states_output = next_fock_state_circuit.evaluate_circuit(collection_of_states_input = collection_of_states_reshaped)
             #return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
-- 
2.43.0


From 58ec769f035304ea9ae15dcf1e58349a14dce04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 32/69] fix: compound circuits no longer share the default list
 of circuits

---
 src/fock_state_circuit/compound_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..b3b768a 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,7 +47,7 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
@@ -58,7 +58,7 @@ class CompoundFockStateCircuit:
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        self.list_of_circuits = [] if list_of_circuits is None else list_of_circuits
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From 63621327fc9e7185add4e3d593f157dabe03eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 33/69] fix: split columns with almost all probability in one
 component

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..461e74b 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -492,7 +492,7 @@ class ColumnOfStates():
                     remaining_probability = np.abs(remaining_amplitude)**2
                     remaining_state.optical_components = [(remaining_component,1)]
                 else:
-                    remaining_probability = 1-split_of_probability
+                    remaining_probability = sum([np.abs(original_optical_components[comp]['amplitude'])**2 for comp in list_of_components[1:]])
                     remaining_amplitude = np.sqrt(remaining_probability)
                     rem_oc = [(comp, original_optical_components[comp]['amplitude']/remaining_amplitude) for comp in list_of_components[1:]]
                     remaining_state.optical_components = rem_oc
-- 
2.43.0


From 209133416933f8655f04e03ee503be6ec98b1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 34/69] fix: splitting of large superpositions no longer
 exceeds the recursion limit

---
 .../interference_group.py                     | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 3c95a43..c094661 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -509,22 +509,19 @@ class InterferenceGroup():
             #'group_cumulative_probability' will still be one.
         
         """
-        found_column_to_split = False
-        for column in self:
-            result = column.split()
-            if result is None: # if column.split() returns None the column already had only single component states
-                continue
-            else:
-                self.add_column(result)
-                found_column_to_split = True
-                break
-        # If a column has been split make a recursive call to this same function, if no column has been split
-        # (i.e., if all columns already were columns with only single-component states) return nothing.
-        if found_column_to_split:
-            self.split_columns()
-            return
-        else:
-            return
+        found_column_to_split = True
+        # repeat until no column has been split (i.e., until all columns are columns with only single-component states)
+        while found_column_to_split:
+            found_column_to_split = False
+            for column in self:
+                result = column.split()
+                if result is None: # if column.split() returns None the column already had only single component states
+                    continue
+                else:
+                    self.add_column(result)
+                    found_column_to_split = True
+                    break
+        return
         
     def single_photon_states(self) -> None:
         """ Expand all columns in the interference group into single photon states.
-- 
2.43.0


From 95ada9ecd5ed07e3d6a4601a5194fc7592e3c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 35/69] fix: components of amplitude zero take no part in
 photon-resolved measurements

---
 .../column_of_states.py                                       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 461e74b..9735f1b 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -455,6 +455,10 @@ class ColumnOfStates():
         """
         new_column = None
         for index, state in enumerate(self.list_of_states):
+            # components can be present with amplitude 0, for instance after clean_up(). These do not get a column
+            components = [(comp, amp_prob['amplitude']) for comp, amp_prob in state.optical_components.items() if amp_prob['amplitude'] != 0]
+            if 0 < len(components) < len(state.optical_components):
+                state.optical_components = components
             if len(state.optical_components) == 1:
                 continue
             else:
-- 
2.43.0


From a23b2176ec101dcf029cf6a2505dbedb121c0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 36/69] fix: outcome probabilities of an interference group can
 be asked for without measuring first

---
 .../interference_group.py                                  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index c094661..5939080 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -849,12 +849,11 @@ class InterferenceGroup():
             dict: Dictionary of form {projection:probability}
         """
         outcomes_and_their_probabilities = dict([])
+        # determine the outcome for each column (the stored values are used below)
+        outcomes_for_columns = [column.generate_optical_component_corresponding_to_column(use_stored_values=False) for column in self.by_column()]
         if list_of_projections is None:
             # determine all possible outcomes
-            list_of_outcomes = []
-            for column in self.by_column():
-                list_of_outcomes.append(column.generate_optical_component_corresponding_to_column(use_stored_values=True))
-            list_of_outcomes = set(list_of_outcomes)
+            list_of_outcomes = set(outcomes_for_columns)
         else:
             list_of_outcomes = list_of_projections
         
-- 
2.43.0


From 1af8193e8660db45baac59b1212c5fe4419dc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 37/69] fix: photon-resolved states keep the relative weight of
 their parts when measured

---
 .../interference_group.py                                | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 5939080..cb805f2 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -954,9 +954,14 @@ class InterferenceGroup():
             # set the new cumulative probability for the group
             new_group.group_cumulative_probability *= probability_for_partial_outcome 
 
-            # renormalize column_amplitudes and boson factors
+            # renormalize column_amplitudes and boson factors. The columns are in general not orthogonal, so besides the amplitudes we rescale
+            # the boson factors such that the total probability for the group is 1. All columns get the same factor, so they keep their
+            # relative weight.
+            sumsquared = sum([np.abs(column.column_amplitude)**2 for column in column_list])
             new_group.rescale_column_amplitudes()
-            new_group.rescale_boson_factors()
+            if probability_for_partial_outcome > 0:
+                for column in new_group.by_column():
+                    column.column_boson_factor = column.column_boson_factor * np.sqrt(probability_for_partial_outcome/sumsquared)
            
             # write classical channels per outcome
             values_to_measure = [column_list[0]._column_as_tuple_of_values[channel] for channel in optical_channels_to_measure]
-- 
2.43.0


From 3d38cf025e620551d35f5ad88b19bb34c57ca3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 38/69] fix: phases of photon-resolved states are kept when the
 states are split in single photons

---
 .../column_of_states.py                                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 9735f1b..988bfd6 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -540,6 +540,7 @@ class ColumnOfStates():
 
         # iterate through states in the original column
         boson_factor = self.column_boson_factor
+        column_amplitude = self.column_amplitude
         for state in self:
             oc = state.optical_components
  
@@ -554,7 +555,7 @@ class ColumnOfStates():
                         values = [0] * len(component_values)
                         values[channel_index] = 1
                         single_photon_component = new_state._dict_of_optical_values[tuple(values)]
-                        new_state.optical_components = [(single_photon_component, component_amplitude)]
+                        new_state.optical_components = [(single_photon_component, 1)]
                         boson_factor *= np.sqrt(photon_count+1)
                         new_list_of_states.append(new_state)
             else: 
@@ -562,11 +563,14 @@ class ColumnOfStates():
                 new_state = state.copy()
                 values = [0] * len(component_values)
                 zero_photon_component = new_state._dict_of_optical_values[tuple(values)]
-                new_state.optical_components = [(zero_photon_component, component_amplitude)]
+                new_state.optical_components = [(zero_photon_component, 1)]
                 new_list_of_states.append(new_state)
+            # the amplitude of the state (i.e., the phase) becomes part of the amplitude of the column
+            column_amplitude *= component_amplitude
 
         self.list_of_states = new_list_of_states          
         self.column_boson_factor = boson_factor
+        self.column_amplitude = column_amplitude
 
         return 
 
-- 
2.43.0


From 9914366ce238eff9047248ac1dcad57b271d69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 39/69] fix: correlated pairs with quantumness 1 equal
 entangled photons also for circular polarization

---
 .../popescu_rohrlich_correlations.py                            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 95fd872..121cdfc 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -322,6 +322,8 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         for box_number, quantumness_indicator in enumerate(quantumness_indicators):
             vector1 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][0]][0]
             vector2 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][1]][0]
+            # the photons are aligned for '1010' + '0101', which means the circular polarizations (x-coordinate) are opposite 
+            vector2 = [-vector2[0], vector2[1], vector2[2]]
             alignment_probability = _probability_from_stokes_vectors(vector1, vector2,quantumness_indicator)
             probability = probability*alignment_probability
       
-- 
2.43.0


From 1bd307a175b82eeedd3dd9aaeace98a2dc183bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 40/69] fix: measurement of correlated pairs records the
 probability of the outcome also for states with lower weight

---
 .../popescu_rohrlich_correlations.py                     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 121cdfc..9577902 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -367,6 +367,7 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             reference_state = state
             break
         initial_state_name_for_output_collection = reference_state.auxiliary_information['popescu_rohrlich_correlation'].get('initial_state_name_for_output','popescu_rohrlich_correlation')
+        original_cumulative_probability = reference_state.auxiliary_information['popescu_rohrlich_correlation']['original_cumulative_probability']
         del reference_state.auxiliary_information['popescu_rohrlich_correlation']
         reference_state.initial_state = initial_state_name_for_output_collection
         for outcome in histo:
@@ -380,11 +381,15 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             new_state.classical_channel_values = new_classical_channel_values
             # prepare the attribute 'measurement_results' for the collapsed state. If there are already
             # measurement results in the input state copy these to the new collapsed state
+            # the probability for this result is relative to the state before measurement
+            probability = outcome['probability']
+            if original_cumulative_probability > 0:
+                probability = probability/original_cumulative_probability
             if state.measurement_results and state.measurement_results is not None:
                 measurement_results = [previous_values for previous_values in new_state.measurement_results]   
-                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']})   
+                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': probability})   
             else:
-                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']}]
+                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': probability}]
             new_state.measurement_results = measurement_results
             output_collection.add_state(state = new_state)
     return output_collection
-- 
2.43.0


From 6497f383e0942f11619b3ab15dc395e6efaafd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 41/69] fix: correlated pairs measured without correlation do
 not amplify rounding errors

---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 9577902..a829985 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -108,6 +108,9 @@ def _probability_from_stokes_vectors(vector1, vector2,quantumness_value: int = 1
     # If this angle is zero the probability is 1, if this angle is 180 degree the probability is zero
     # 180 degree on Poincare sphere is 90 degree between polarization orientation, so orthogonal
     probability_amplitude = np.inner(vector1,vector2)/np.sqrt(np.inner(vector1,vector1)*np.inner(vector2,vector2))
+    # without correlation rounding errors should not be blown up by the power below (for instance (1e-8)**(1/1000) = 0.98)
+    if np.abs(probability_amplitude) < 1e-6:
+        probability_amplitude = 0
     sign = np.sign(probability_amplitude)
     probability_amplitude = sign*np.power(sign*probability_amplitude,1/quantumness_value)
 
-- 
2.43.0


From 6f83117a28353668225681eb4993fb9b106902e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 42/69] fix: plotting a photon-resolved collection leaves its
 states as they were

---
 src/fock_state_circuit/visualization/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index 55efbfc..5808e06 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -167,7 +167,7 @@ class Plot():
         resulting_collection.clear()
 
         # step 1: Same as above for full outcomes
-        coll_of_cols = CollectionOfStateColumns(collection_of_states=self)
+        coll_of_cols = CollectionOfStateColumns(collection_of_states=self.copy())
         coll_of_cols.split()
         
         # step 2: Per group consolidate in new state without photon resolution
-- 
2.43.0


From 562acf9561442b710b8d6053d616666c3e44ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 43/69] fix: setting a state from a vector does not modify the
 vector

---
 src/fock_state_circuit/state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index f275566..a527415 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -558,9 +558,8 @@ class State():
         """        
         optical_components = dict([])
         for index, value in enumerate(state_vector):
-            # if value is below threshold set to zero
+            # if value is below threshold leave the component out (the vector passed by the caller is not modified)
             if np.abs(value)**2 < self._threshold_probability_for_setting_to_zero:
-                state_vector[index] = 0
                 continue
             amplitude = state_vector[index]
             component = self._dict_of_valid_component_names.at_index(index)
-- 
2.43.0


From 36b333b4666e300a654248032399895bbff3b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 44/69] fix: repeated components in a list add up in tensor
 products

---
 src/fock_state_circuit/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index a527415..1975000 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -693,6 +693,9 @@ class State():
                         new_comp = comp1 + comp2
                     else:
                         new_comp = comp2 + comp1
+                    # components which are repeated in the list add up (as for state.optical_components)
+                    if new_comp in new_optical_components:
+                        new_amp = new_amp + new_optical_components[new_comp]['amplitude']
                     new_optical_components.update({new_comp: {'amplitude': new_amp, 'probability': np.abs(new_amp)**2 }})
             return new_optical_components
         
-- 
2.43.0


From 14ec477e0196b7b0b5f064629ff1c210a07ecad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 45/69] fix: circuits without a name can be printed

---
 src/fock_state_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index e2a2026..9a96773 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -264,7 +264,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         Returns:
             str: string describing the circuit
         """ 
-        text = 'FockStateCircuit name: ' + self._circuit_name + '\n'
+        text = 'FockStateCircuit name: ' + ('' if self._circuit_name is None else self._circuit_name) + '\n'
         text += 'Optical Channels: ' + str(self._no_of_optical_channels) + '\n'
         text += 'Classical Channels: ' + str(self._no_of_classical_channels) + '\n'
         text += 'Length of Fock state: ' + str(self._length_of_fock_state) + '\n'
-- 
2.43.0


From 5017161febb79b95d623816a172eb3038e281643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 46/69] fix: drawing does not give a name to circuits without
 one

---
 src/fock_state_circuit/visualization/draw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..6dc482b 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -522,7 +522,7 @@ class Draw():
                     circuit_label_x =  node_x - 0.5 * compound_circuit_settings['spacing_between_nodes'] - shift_combined_node
                 # add a label for the circuit at the top
                 axis.annotate(               
-                    self._circuit_name, 
+                    compound_circuit_settings['compound_circuit_name_list'][compound_circuit_settings['circuit_index']], 
                     (circuit_label_x, compound_circuit_settings['circuit_name_y_value']),
                     fontsize=circuit_draw_settings_dict['circuit_name_font_size'],
                     horizontalalignment = 'left',
@@ -838,6 +838,7 @@ class Draw():
         # if last node of circuit was 'bridge' plot next circuit. Otherwise show the plot.
         if this_node_is_a_bridge:
             next_fock_state_circuit = self.node_list[-1].get('next_fock_state_circuit')
+            compound_circuit_settings['circuit_index'] += 1
             next_fock_state_circuit.draw(print_defaults = False, 
                                         settings_for_drawing_circuit = settings_for_drawing_circuit,
                                         compound_circuit_settings =compound_circuit_settings)
@@ -925,7 +926,6 @@ class Draw():
             # make a list of names for the various circuits in the compound circuit
             if circuit._circuit_name is None:
                 this_circuit_name = 'circuit ' + str(len(compound_circuit_names))
-                circuit._circuit_name = this_circuit_name
             else:
                 this_circuit_name = circuit._circuit_name
             compound_circuit_names.append(this_circuit_name)
@@ -982,6 +982,7 @@ class Draw():
         # gather all parameters in a dictionary which can be passed on in the recursive call to next circuits
         compound_circuit_settings = {
             'compound_circuit_name_list' : compound_circuit_names,
+            'circuit_index' : 0,
             'number_of_pages' : number_of_pages,
             'canvas_height' : canvas_height,
             'canvas_width' : canvas_width,
@@ -1204,7 +1205,7 @@ class Draw():
         circuit_for_this_station._length_of_fock_state= self._length_of_fock_state
         circuit_for_this_station._no_of_optical_channels= len(set(optical_channels_for_this_station).intersection(set([i for i in range(self._no_of_optical_channels)])))
         circuit_for_this_station._no_of_classical_channels= len(set(classical_channels_for_this_station).intersection(set([i for i in range(self._no_of_classical_channels)])))
-        circuit_for_this_station._name= self._circuit_name + '/' + station_to_draw
+        circuit_for_this_station._name= ('' if self._circuit_name is None else self._circuit_name) + '/' + station_to_draw
 
         # iterate through the list with all the nodes in the total circuit (self is the total circuit)  
         # modify the 'original node' from the total circuit to become a 'local node' in the circuit for the local station
-- 
2.43.0


From 7eed3031d4ee1ebf98e95fded50152e58903fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 47/69] fix: only the selected stations are drawn when they are
 given as a list

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6dc482b..ce71a5c 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1097,7 +1097,7 @@ class Draw():
         elif not isinstance(stations['station_to_draw'],list):
             station_list = [stations['station_to_draw']]
         else: 
-            station_list = list(stations['station_channels'].keys())
+            station_list = stations['station_to_draw']
 
         # create the settings for drawing stations for this circuit
         settings_for_drawing_station = self.create_settings_for_drawing_stations(stations,settings_for_drawing_circuit)
-- 
2.43.0


From e303e203515e2e304a0298b10d5c68855492efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 48/69] fix: drawing stations does not modify the dictionary
 with stations

---
 src/fock_state_circuit/visualization/draw.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index ce71a5c..1666e42 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1189,10 +1189,8 @@ class Draw():
             fsc.FockStateCircuit: (reduced) circuit containing only channels belonging to a single station
         """
 
-        # make sure that we at least have an empty list for optical and classical channels
-        for station, channels in station_channels.copy().items():
-                channels = {'optical_channels': [], 'classical_channels': []} | channels
-                station_channels.update({station:channels})
+        # make sure that we at least have an empty list for optical and classical channels (leave the dictionary of the user as it is)
+        station_channels = {station: {'optical_channels': [], 'classical_channels': []} | channels for station, channels in station_channels.items()}
 
         # these are the channels relevant for this specific station
         optical_channels_for_this_station = station_channels[station_to_draw].get('optical_channels',[])
-- 
2.43.0


From f1775ad8f5181d066fcafba0457fb6aa8e23802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 49/69] fix: combined gates which do not fit on a line are
 drawn as individual nodes

---
 src/fock_state_circuit/visualization/draw.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 1666e42..b4a0539 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -213,13 +213,14 @@ class Draw():
                     else:
                         number_of_combined_nodes += 1
 
-                nodes_occupied_by_combined_node = number_of_combined_nodes//2
+                nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2
                 # if combined node does not fit on a page treat it as individual nodes (combined node is too large)
-                if (number_of_combined_nodes//2) > len(compound_circuit_settings['node_x_values']):
-                    this_is_a_combined_node = False
                 # if combined node is a single node treat it as a single node
-                if number_of_combined_nodes <= 1:
-                    this_is_a_combined_node = False
+                draw_combined_node_as_individual_nodes = (nodes_occupied_by_combined_node > len(compound_circuit_settings['node_x_values'])) or number_of_combined_nodes <= 1
+            # all nodes in a combined node are treated as individual nodes if the first one is
+            if this_is_a_combined_node and draw_combined_node_as_individual_nodes:
+                this_is_a_combined_node = False
+                this_is_first_of_a_combined_node = False
 
             # create a number which in binary format has a 1 for occupied channels and 0 otherwise, this is used to determine
             # whether we can draw nodes on the same x-location (if the nodes do not overlap this makes the circuit drawing more
@@ -357,7 +358,7 @@ class Draw():
                   
                     # generate the x-values for all nodes in the combined node
                     combined_node_x_values = []
-                    node_spacing = compound_circuit_settings['node_x_values'][1]-compound_circuit_settings['node_x_values'][0]
+                    node_spacing = compound_circuit_settings['spacing_between_nodes']
                     node_x_original_first_node_in_compound = compound_circuit_settings['node_x_values'][node_number_on_page_first_combined_node]
                     if number_of_combined_nodes%2 == 0: #case for even number of nodes
                         shift_combined_node = (-1/4)*node_spacing
-- 
2.43.0


From cd9d4afe3b0ac66211d0565f94278e84df1b421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 50/69] fix: combined gate which fills the first page is not
 moved to the second page in the drawing

---
 src/fock_state_circuit/visualization/draw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index b4a0539..4d73de6 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -341,6 +341,9 @@ class Draw():
                     page_number_first_combined_node, node_number_on_page_first_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']), len(compound_circuit_settings['node_x_values']))
                     nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2 # 0 -> 0, 1->1,  2-> 1, 3 -> 2, 4->2, ....
                     page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node, len(compound_circuit_settings['node_x_values']))
+                    # a combined node at the start of a page stays there (it is not larger than a page)
+                    if node_number_on_page_first_combined_node == 0:
+                        page_number_last_combined_node = page_number_first_combined_node
                     page_number = page_number_last_combined_node
 
                     # check if full combined nodes still fits on the page, otherwise move everything to next page
-- 
2.43.0


From 325d4b2e2e677499d7ccb89065d4d9c62c52fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 51/69] fix: positions of nodes after a bridge in drawings are
 not shifted (P23)

---
 src/fock_state_circuit/visualization/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 4d73de6..f6e1d85 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -329,7 +329,8 @@ class Draw():
                 # if this is a bridge it will be drawn 'inbetween' nodes so we have to shorten the list of nodes occupied to avoid a gap
                 compound_circuit_settings['node_positions_occupied'].append(bitnumber_occupied_channels)
                 if this_node_is_a_bridge:
-                    compound_circuit_settings['node_positions_occupied']  = compound_circuit_settings['node_positions_occupied'][1:]
+                    # the bridge takes the place of the last node, so nodes in the next circuit are not moved to before the bridge
+                    del compound_circuit_settings['node_positions_occupied'][max(0, len(compound_circuit_settings['node_positions_occupied']) - 2)]
 
                 # determine where to write this node
                 node_x = compound_circuit_settings['node_x_values'][node_number_on_page]
-- 
2.43.0


From 83fb6eb81564a571e3d5b566ab8f5530cc94bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 52/69] fix: negative numbers are not valid classical channels
 to be set

---
 src/fock_state_circuit/nodes/classical_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/classical_nodes.py b/src/fock_state_circuit/nodes/classical_nodes.py
index 5684acb..b7915e6 100644
--- a/src/fock_state_circuit/nodes/classical_nodes.py
+++ b/src/fock_state_circuit/nodes/classical_nodes.py
@@ -109,7 +109,8 @@ class ClassicalNodes(NodeList):
         """
         conditions = [
             len(list_of_values_for_classical_channels) != len(list_of_classical_channel_numbers),
-            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels
+            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels,
+            min(list_of_classical_channel_numbers) < 0
             ]
         if any(conditions):
             raise Exception('Incorrect input in function set_classical_channels')
-- 
2.43.0


From 1e53218a841af001590e903780696583e97a5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 53/69] fix: nodes with classical control refuse channels which
 are not in the circuit

---
 src/fock_state_circuit/nodes/controlled_nodes.py       | 8 ++++----
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..3f472e3 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if not 0 <= classical_channel_for_phase_shift < self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if not 0 <= optical_channel_to_shift < self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if not all(0 <= channel < self._no_of_classical_channels for channel in [classical_channel_for_phase_shift, classical_channel_for_orientation]):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if not all(0 <= channel < self._no_of_optical_channels for channel in [optical_channel_horizontal, optical_channel_vertical]):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 5e613e4..d2bfdcc 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if not all(0 <= channel < self._no_of_classical_channels for channel in [classical_channel_for_phase_shift, classical_channel_for_orientation]):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if not all(0 <= channel < self._no_of_optical_channels for channel in [optical_channel_horizontal, optical_channel_vertical]):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From d69044cdb6d26b2d3b9521b1a1725374f984b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 54/69] fix: custom optical nodes refuse every matrix which is
 not 2x2

---
 src/fock_state_circuit/nodes/custom_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1c996b1..7a3cd5e 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -131,7 +131,7 @@ class CustomNodes(NodeList):
                 'fillstyle' : 'full'
             }|node_info
  
-        if len(matrix_optical) != 2 and len(matrix_optical[0]) != 2:
+        if len(matrix_optical) != 2 or any(len(row) != 2 for row in matrix_optical):
             raise Exception('Only optical nodes with 2-channel interaction are implemented')
         channel_numbers = optical_channels
         tensor_list = self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_numbers)
-- 
2.43.0


From 0ea75fcdb2c304252edab4cadb3c52bd8ad38685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 55/69] fix: beamsplitter with an invalid pair of channels does
 not add a node for the other pair

---
 src/fock_state_circuit/nodes/optical_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..aa3aa2f 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -292,6 +292,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels before adding nodes, so that nothing is added if one of the channel pairs is not valid
+        for channel_a, channel_b in zip(input_channels_a[:2], input_channels_b[:2]):
+            self._translate_channels_numbers_to_tensor_list(channel_numbers = [channel_a, channel_b])
         self.mix_generic_refl_transm(
             first_channel = input_channels_a[0], 
             second_channel = input_channels_b[0], 
@@ -745,6 +748,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels before adding nodes, so that nothing is added if one of the channel pairs is not valid
+        for channel_a, channel_b in zip(input_channels_a[:2], input_channels_b[:2]):
+            self._translate_channels_numbers_to_tensor_list(channel_numbers = [channel_a, channel_b])
         self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
         self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
         return
-- 
2.43.0


From b9f4e4c62f1f0be3ec5fe0b9209046f7938bca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 56/69] fix: states with classical values or measurement
 results which are not a list are not valid

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 1975000..3482c9c 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -415,7 +415,7 @@ class State():
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-        if not type(classical_channel_values) == type([0,0]) and type(measurement_results) == type([0,0]):
+        if not (type(classical_channel_values) == type([0,0]) and (type(measurement_results) == type([0,0]) or measurement_results == {})):
             return (False,'Invalid state: issue with classical channel values')
         if len(classical_channel_values) != self._no_of_classical_channels:
             return (False,'Invalid state: classical channel values does not match with number of classical channels')
-- 
2.43.0


From 6e9e7d0f664908a9220d4cf4e2aaefd9c4606e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 57/69] fix: dictionaries with something else than valid states
 are refused as collection

---
 src/fock_state_circuit/collection_of_states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index f5581bd..31f5dbd 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -528,7 +528,10 @@ class CollectionOfStates(Plot):
         if not type(collection_of_states_as_dictionary) == type(dict([])):
             return False     
         for identifier, state in collection_of_states_as_dictionary.items():
-            if not type(identifier) == type('name') and isinstance(state, State) and bool(state):
+            if not type(identifier) == type('name'):
+                return False
+            # the states in the dictionary are either valid states, or dictionaries used to create a state
+            if not (isinstance(state, dict) or (isinstance(state, State) and bool(state))):
                 return False
         return True
     
-- 
2.43.0


From 62784048cec384745c2f27acf619b4f6fadfc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 58/69] fix: evaluating a circuit does not link its input to
 this circuit

---
 src/fock_state_circuit/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 9a96773..058b5b7 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -724,8 +724,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            # make a copy for this circuit, the input collection remains linked to its own circuit
+            collection_of_states = CollectionOfStates(fock_state_circuit=self,
+                                                      input_collection_as_a_dict={identifier: state.copy() for identifier, state in collection_of_states.items()})
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
-- 
2.43.0


From 023d5ca13882d32aecd4b6425c290957970bdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 59/69] fix: shift_direct and c_shift_direct refuse channels
 which do not match with the circuit

---
 src/fock_state_circuit/nodes/custom_nodes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 7a3cd5e..3425034 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -258,6 +258,13 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = len(shift_per_channel) != len(target_channels)
+        if any(not 0 <= target < self._no_of_optical_channels for target in target_channels):
+            error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
             'label' : "shift",
@@ -324,6 +331,14 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = len(control_channels) != len(target_channels)
+        for control, target in zip(control_channels, target_channels):
+            if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels or control == target:
+                error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
                 'label' : "c-shift",
-- 
2.43.0


From f8feb393f7d3bb4a8800cd98e4cf35f3c3874928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 60/69] fix: a circuit keeps its own copy of the lists and
 arrays in its nodes

---
 src/fock_state_circuit/nodes/custom_nodes.py    |  4 ++--
 .../nodes/nodelist/node_list.py                 | 17 ++++++++++++++++-
 .../nodes/quantum_operator_nodes.py             |  2 +-
 src/fock_state_circuit/nodes/spectral_nodes.py  | 11 ++++++-----
 .../nodes/superquantum_nodes.py                 |  2 +-
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 3425034..5dcaa33 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -300,7 +300,7 @@ class CustomNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [shift_per_channel,target_channels],
+            'generic_function_parameters' : [list(shift_per_channel),list(target_channels)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
@@ -375,7 +375,7 @@ class CustomNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [control_channels,target_channels],
+            'generic_function_parameters' : [list(control_channels),list(target_channels)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index 20f5794..6018125 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -1,5 +1,6 @@
 
 from __future__ import annotations
+import numpy as np
 from fock_state_circuit.nodes.nodelist.optical_values_component_names import OpticalValues,ComponentNames
 
 class NodeList():    
@@ -157,10 +158,24 @@ class NodeList():
             node_to_be_added['node_type'] not in NodeList._TYPES_OF_NODES):
             raise Exception('Error when updating the list of nodes for the fock state circuit')
 
-        self.node_list.append(node_to_be_added)
+        # the circuit keeps its own copy of lists and arrays, so it does not change when the caller re-uses these later. The
+        # parameters for a generic function are handed to that function as they are.
+        self.node_list.append({key: value if key == 'generic_function_parameters' else NodeList._own_copy(value) 
+                               for key, value in node_to_be_added.items()})
 
         return
 
+    @staticmethod
+    def _own_copy(setting):
+        """ Copy lists, dictionaries and arrays in the settings of a node. Anything else is returned as is. """
+        if isinstance(setting, list):
+            return [NodeList._own_copy(item) for item in setting]
+        if isinstance(setting, dict):
+            return {key: NodeList._own_copy(item) for key, item in setting.items()}
+        if isinstance(setting, np.ndarray):
+            return setting.copy()
+        return setting
+
     def _translate_channels_numbers_to_tensor_list(self, channel_numbers: list[int] = []) -> list[int]:
 
         """ Generate a tensor list. The tensor list indicates to which optical channel a gate should be applied.
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index d2bfdcc..e77a381 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -44,7 +44,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [channels, operators],
+            'generic_function_parameters' : [NodeList._own_copy(channels), NodeList._own_copy(operators)],
             'node_type' : node_type,
             'node_info' : node_info
         }
diff --git a/src/fock_state_circuit/nodes/spectral_nodes.py b/src/fock_state_circuit/nodes/spectral_nodes.py
index e5811eb..8cd8dbf 100644
--- a/src/fock_state_circuit/nodes/spectral_nodes.py
+++ b/src/fock_state_circuit/nodes/spectral_nodes.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 from fock_state_circuit.nodes.nodelist.node_list import NodeList
 import numpy as np
+import copy
 from fock_state_circuit.temporal_and_spectral_gate_functionality.column_of_states import ColumnOfStates
 from fock_state_circuit.temporal_and_spectral_gate_functionality.interference_group import InterferenceGroup
 from fock_state_circuit.temporal_and_spectral_gate_functionality.collection_of_state_columns import CollectionOfStateColumns
@@ -121,7 +122,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,delay,pulse_width],
+                                   parameters = [copy.copy(affected_channels),delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay_classical_control_full(self,
@@ -156,7 +157,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,classical_channel_for_delay,pulse_width],
+                                   parameters = [copy.copy(affected_channels),classical_channel_for_delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay(self,
@@ -197,7 +198,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,delay,pulse_width],
+                                   parameters = [copy.copy(affected_channels),delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay_classical_control(self,
@@ -242,7 +243,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,classical_channel_for_delay,pulse_width],
+                                   parameters = [copy.copy(affected_channels),classical_channel_for_delay,pulse_width],
                                    node_info= node_info) 
         
     def set_pulse_width(self,
@@ -280,7 +281,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,pulse_width],
+                                   parameters = [copy.copy(affected_channels),pulse_width],
                                    node_info= node_info) 
             
 
diff --git a/src/fock_state_circuit/nodes/superquantum_nodes.py b/src/fock_state_circuit/nodes/superquantum_nodes.py
index 4a32a22..f36336b 100644
--- a/src/fock_state_circuit/nodes/superquantum_nodes.py
+++ b/src/fock_state_circuit/nodes/superquantum_nodes.py
@@ -92,7 +92,7 @@ class SuperQuantumNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [pr_correlation],
+            'generic_function_parameters' : [NodeList._own_copy(pr_correlation)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
-- 
2.43.0


From 7af8369b6ff091aa16ac9c8fc1a40e538363fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 61/69] fix: the photon number of a state whose components were
 all left out is zero

---
 src/fock_state_circuit/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 3482c9c..bbb295c 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -366,6 +366,9 @@ class State():
         list_photon_numbers = []
         for component in self.state['optical_components'].keys():
             list_photon_numbers.append(sum(self._dict_of_valid_component_names[component]))
+        # all components can have been below threshold and left out, what remains is a state without photons
+        if not list_photon_numbers:
+            return (0, True)
         if max(list_photon_numbers) == min(list_photon_numbers):
             return (max(list_photon_numbers), True)
         else:
-- 
2.43.0


From 2b3ba460d296126d58cbaff60a4c16c59ea01a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 62/69] fix: the printed measurement history follows the
 setting of the collection, also in copies

---
 src/fock_state_circuit/collection_of_states.py |  8 +++++---
 src/fock_state_circuit/state.py                | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 31f5dbd..45be23d 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -346,7 +346,7 @@ class CollectionOfStates(Plot):
         text += 'Number of states in collection: {}\n'.format(len(self._collection_of_states))
         for name,state in self._collection_of_states.items():
             text += 'Identifier: {!r}\n'.format(name)
-            text += str(state)
+            text += state._text_for_printing(self.print_only_last_measurement)
         return text
     
     def __len__(self) -> int:
@@ -606,7 +606,7 @@ class CollectionOfStates(Plot):
             CollectionOfStates: new collection of states with identical values and parameters as the original
         """        
         if empty_template:
-            return CollectionOfStates(self._fock_state_circuit, dict([]))
+            new_collection = CollectionOfStates(self._fock_state_circuit, dict([]))
         else:
             new_selection_of_states = dict([])
             for identifier,state in self._collection_of_states.items():
@@ -614,7 +614,9 @@ class CollectionOfStates(Plot):
                 new_state = state.copy()
                 new_selection_of_states.update({new_state_identifier : new_state})
 
-            return CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+            new_collection = CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+        new_collection.print_only_last_measurement = self.print_only_last_measurement
+        return new_collection
               
     
     def generate_allowed_components_names_as_list_of_strings(self) -> list:
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index bbb295c..928173a 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -276,6 +276,17 @@ class State():
         Returns:
             str: string describing the state
         """        
+        return self._text_for_printing(self._print_only_last_measurement)
+
+    def _text_for_printing(self, print_only_last_measurement: bool) -> str:
+        """ Return the string for 'pretty printing' the state, with only the last or with all measurement results.
+
+        Args:
+            print_only_last_measurement (bool): True for only the last measurement result, False for the full history
+
+        Returns:
+            str: string describing the state
+        """
         text = 'Initial state: {!r}\n'.format(self.state.get('initial_state', "Warning: initial state not available for this state"))
         text += 'Cumulative probability: {:.02f}\n'.format(self.state.get('cumulative_probability'))
         classical_channel_values = self.state.get('classical_channel_values')
@@ -283,7 +294,7 @@ class State():
             text += 'Classical values: ' + str(["{n:.2f}".format(n=val) for val in classical_channel_values]) + '\n'
         measurement_results = self.state.get('measurement_results', None)
         if measurement_results is not None and len(measurement_results) > 0:
-            if self._print_only_last_measurement:
+            if print_only_last_measurement:
                 text += 'Last measurement result:  \n'
                 result = measurement_results[-1]
                 if 'measurement_results' in result.keys() and 'probability' in result.keys():
-- 
2.43.0


From 843318bd318018db7d300893453ec24ab92af0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 63/69] fix: set_collection_as_statistical_mixture uses copies
 of the states, so a state can be used twice and is not changed

---
 src/fock_state_circuit/collection_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 45be23d..5caac03 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -467,6 +467,8 @@ class CollectionOfStates(Plot):
             # for initial state use initial state name in first state and copy to all in the mixture
 
             if bool(state):
+                # the mixture holds copies, the states handed over are not changed and can be used more than once
+                state = state.copy()
                 state.cumulative_probability = weight
                 state.initial_state = initial_state
                 mixture.update({identifier : state})
-- 
2.43.0


From 9292851b80bd346ac46db31b7438b15d8b66d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 64/69] fix: ComponentNames does not take text with spaces,
 signs or digits of other scripts as a component name

---
 .../nodes/nodelist/optical_values_component_names.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index a41b395..3598857 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -250,6 +250,9 @@ class ComponentNames():
         """ True if the componet name (as string) represent a valid optical state."""
         if len(key) != self.digits_per_channel * self.no_of_optical_channels:
             return False
+        # int() also reads signs, spaces and digits of other scripts, these are no valid names
+        if not (key.isascii() and key.isdigit()):
+            return False
         values = self.__getitem__(key)
         return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
     
-- 
2.43.0


From 67a6f9309f2876706674ea0e932d2f0073feb46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 65/69] fix: evaluating an empty circuit or an empty list of
 nodes returns a copy instead of the input

---
 src/fock_state_circuit/circuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 058b5b7..0719bff 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -303,11 +303,12 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # if nodes_to_be_evaluated == ['all'] make a list with all indices in node_list
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
-            if len(self.node_list) == 0: # case for empty circuit
-                return collection_of_states_input
-        # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop
-        elif len(nodes_to_be_evaluated) == 0:
+        # if all nodes have been evaluated return the result. This was last recursion loop
+        if nodes_to_be_evaluated == ():
             return collection_of_states_input
+        # if there are no nodes (empty circuit or empty list) return a copy, the result does not share states with the input
+        elif len(nodes_to_be_evaluated) == 0:
+            return CollectionOfStates(self) if collection_of_states_input is None else collection_of_states_input.copy()
         # raise exception if the values in nodes_to_be_evaluated do not match with the length of self.node_list
         else:
             for node_index in nodes_to_be_evaluated:
@@ -332,6 +333,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         else:
             current_node_index = nodes_to_be_evaluated[0]
             remaining_nodes = nodes_to_be_evaluated[1:]
+        # an empty tuple indicates that all nodes have been evaluated
+        if len(remaining_nodes) == 0:
+            remaining_nodes = ()
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From afaa504d6774439ac7dcb059c4b6b866d078fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:48 +0000
Subject: [PATCH 66/69] fix: single_photon_states raises the documented
 exception for states which are superpositions

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 988bfd6..0c5c926 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -532,7 +532,7 @@ class ColumnOfStates():
 
         """
         # check is all states have a single optical component
-        if not self.all_states_single_optical_component:
+        if any(len(state.optical_components) != 1 for state in self):
             raise Exception('in function split_in_single_photon_states the input collection should only have states with a single optical component')
         
         # this list will contain the single photon states
-- 
2.43.0


From 4b80999a3c1109eb96f634c4fd5de32e24d38b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:48 +0000
Subject: [PATCH 67/69] fix: keep amplitude and phase of states with a single
 component when generating a single state from an interference group

---
 .../interference_group.py                                   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index cb805f2..c9cf7f6 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -570,8 +570,12 @@ class InterferenceGroup():
             group_cumulative_probability = column.group_cumulative_probability
             if len(column) != 0:
                 state = column.generate_single_state_from_column()
+                # the amplitude of the states in the column (i.e., the phase) becomes part of the amplitude of the component
+                column_amplitude = column.column_amplitude
+                for state_in_column in column:
+                    column_amplitude = column_amplitude * next(iter(state_in_column.optical_components.values()))['amplitude']
                 for k,v in state.optical_components.items():
-                    new_amplitude = column.column_amplitude * v['amplitude']
+                    new_amplitude = column_amplitude * v['amplitude']
                     new_probability = np.abs(new_amplitude)**2
                     amp_prob = {'amplitude': new_amplitude, 'probability': new_probability}
                     optical_components.update({k:amp_prob})
-- 
2.43.0


From af5a203d9d6683e7f5863fa2ab6a92509cb4a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:48 +0000
Subject: [PATCH 68/69] fix: add_column to an interference group gives a new
 column the identifier asked for

---
 .../interference_group.py                                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index c9cf7f6..9327711 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -416,6 +416,8 @@ class InterferenceGroup():
             self._interference_group_dict[self._next_new_column_identifier] = column
             return
         else:
+            column.column_identifier = column_identifier
+            column.interference_group_identifier = self.interference_group_identifier
             self._interference_group_dict[column_identifier] = column
             return
             
-- 
2.43.0


From 67db189194ed593021374752d90f4899c2652482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:48 +0000
Subject: [PATCH 69/69] fix: generate_collection_of_states returns an empty
 collection for an empty collection of columns

---
 .../collection_of_state_columns.py                           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index e71d43c..308b779 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -202,6 +202,11 @@ class CollectionOfStateColumns():
                 new_collection_of_states.clear()
             new_collection_of_states.add_state(state.copy())
 
+        if new_collection_of_states is None:
+            # there are no states, return an empty collection
+            new_collection_of_states = self._collection_of_states.copy()
+            new_collection_of_states.clear()
+
         return new_collection_of_states
     
     def new_instance_from_state_information(self) -> CollectionOfStateColumns:
-- 
2.43.0

